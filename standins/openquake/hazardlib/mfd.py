from openquake.hazardlib._rec import Rec


class BaseMFD(Rec):
    def modify(self, modification, parameters):
        if modification not in self.MODIFICATIONS:
            raise ValueError('unknown modification %s' % modification)
        self.modified = getattr(self, 'modified', []) + [
            (modification, dict(parameters))]


class TruncatedGRMFD(BaseMFD):
    MODIFICATIONS = set(('increment_max_mag', 'set_max_mag',
                         'increment_b', 'set_ab'))
    params = ('min_mag', 'max_mag', 'bin_width', 'a_val', 'b_val')

    def get_min_max_mag(self):
        return self.min_mag, self.max_mag

    def get_annual_occurrence_rates(self):
        out = []
        m = self.min_mag + self.bin_width / 2.
        while m < self.max_mag:
            lo, hi = m - self.bin_width / 2., m + self.bin_width / 2.
            out.append((m, 10 ** (self.a_val - self.b_val * lo) -
                        10 ** (self.a_val - self.b_val * hi)))
            m += self.bin_width
        return out


class EvenlyDiscretizedMFD(BaseMFD):
    MODIFICATIONS = set()
    params = ('min_mag', 'bin_width', 'occurrence_rates')

    def get_min_max_mag(self):
        return (self.min_mag, self.min_mag + self.bin_width * (
            len(self.occurrence_rates) - 1))

    def get_annual_occurrence_rates(self):
        return [(self.min_mag + i * self.bin_width, r)
                for i, r in enumerate(self.occurrence_rates)]
