from openquake.hazardlib._rec import Rec


class PMF(Rec):
    params = ('data',)

    def check(self):
        if not self.data or abs(sum(p for p, _ in self.data) - 1) > 1E-7:
            raise ValueError('values do not sum to 1.0')
