from openquake.hazardlib._rec import Rec


class PoissonTOM(Rec):
    params = ('time_span',)
