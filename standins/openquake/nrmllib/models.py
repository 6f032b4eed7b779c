"""Stand-in for openquake.nrmllib.models: plain attribute holders with the
inheritance of the original."""


class _Model(object):
    def __init__(self, **kw):
        vars(self).update(kw)


class PointSource(_Model):
    pass


class AreaSource(PointSource):
    pass


class SimpleFaultSource(_Model):
    pass


class ComplexFaultSource(SimpleFaultSource):
    pass


class CharacteristicSource(_Model):
    pass


class SimpleFaultGeometry(_Model):
    pass


class ComplexFaultGeometry(_Model):
    pass


class PlanarSurface(_Model):
    pass


class SimpleFaultRuptureModel(_Model):
    pass


class ComplexFaultRuptureModel(SimpleFaultRuptureModel):
    pass


class TGRMFD(_Model):
    pass


class IncrementalMFD(_Model):
    pass


class SourceModel(_Model):
    pass


class NodalPlane(_Model):
    pass


class HypocentralDepth(_Model):
    pass
