"""Stand-in: the parsed model is given instead of a file."""


class SourceModelParser(object):
    models = {}     # file name -> list of sources

    def __init__(self, fname):
        self.fname = fname

    def parse(self):
        return iter(self.models[self.fname])
