from openquake.hazardlib.gsim import base


class GsimA(base.GroundShakingIntensityModel):
    pass


class GsimB(base.GroundShakingIntensityModel):
    pass


class GsimC(base.GroundShakingIntensityModel):
    pass


def get_available_gsims():
    return {'GsimA': GsimA, 'GsimB': GsimB, 'GsimC': GsimC}
