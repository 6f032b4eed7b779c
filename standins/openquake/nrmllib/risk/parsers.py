"""Stand-in: the parsed model is given instead of a file."""


class VulnerabilityModelParser(object):
    models = {}     # file name -> list of records

    def __init__(self, fname):
        self.fname = fname

    def __iter__(self):
        return iter(self.models[self.fname])


class FragilityModelParser(object):
    def __init__(self, content):
        self.content = content

    def __iter__(self):
        return iter(self.content)
