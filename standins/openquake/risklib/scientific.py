"""Stand-in for openquake.risklib.scientific: the functions keep their
arguments and are checked as the original ones."""


def strictly_increasing(xs):
    return all(a < b for a, b in zip(xs, xs[1:]))


class VulnerabilityFunction(object):
    def __init__(self, imt, imls, mean_loss_ratios, covs=None,
                 distribution_name='LN'):
        if not strictly_increasing(list(imls)):
            raise ValueError('The imls must be strictly increasing')
        if any(r < 0 for r in mean_loss_ratios):
            raise ValueError('Negative loss ratio')
        if len(imls) != len(mean_loss_ratios):
            raise ValueError('Inconsistent lengths')
        self.imt = imt
        self.imls = imls
        self.mean_loss_ratios = mean_loss_ratios
        self.covs = covs
        self.distribution_name = distribution_name


class FragilityFunctionDiscrete(object):
    def __init__(self, imls, poes, no_damage_limit=None):
        self.imls, self.poes = imls, poes
        self.no_damage_limit = no_damage_limit


class FragilityFunctionContinuous(object):
    def __init__(self, mean, stddev):
        self.mean, self.stddev = mean, stddev
