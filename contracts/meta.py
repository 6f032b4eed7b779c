"""Per property: assumptions and bounded stand-ins reported in the
evidence."""
REALS = 'machine floats are treated as mathematical reals'
PURE = ('functions given as arguments are pure: equal arguments give equal '
        'results')
DEC = 'decimal numbers are exact (no rounding to the context precision)'
LXML = ('lxml parses the document; elements have the attributes and texts the '
        'NRML schema requires')
NRML = ('nrmllib nodes by their documented meaning; the attributes and '
        'children the NRML schema requires are there; ')
BACK = ['that the two directions compose to the identity is run on generated '
        'models (companion); each direction is proved against its own '
        'contract']
WAY = ('nrmllib.Node is a record of tag, attributes, text and subnodes (its '
       'source text is in c_converter.NODE); itertools.groupby gives the '
       'runs of rows with equal keys; the constructors of '
       'risklib.scientific accept the numbers of valid models; foreign keys '
       'of the tables refer to rows that are there')
META = {
    'C01': {'assumptions': [REALS, PURE]},
    'C02': {'assumptions': [REALS, PURE]},
    'C03': {'assumptions': [REALS, PURE]},
    'C04': {'assumptions': [REALS]},
    'C06': {'assumptions': [
        'values are finite and not recursive (induction on their depth)',
        'a value is of one kind: list, tuple, dictionary, object with '
        'attributes, object with slots (of its class), other iterable, '
        'string, number or other',
        'numpy.testing.assert_almost_equal raises an AssertionError exactly '
        'when the numbers differ at the given decimals',
        'the keys of a dictionary are distinct']},
    'C10': {'assumptions': [PURE]},
    'C11': {'assumptions': [PURE],
            'bounded': ['record classes built by the real metaclass: 1 to 4 '
                        'own fields plus up to 2 inherited ones']},
    'C12': {'assumptions': ['a record is not modified while it is stored in '
                            'a table', 'positions given are in range'],
            'bounded': ['record types with 1 to 3 unique constraints (any '
                        'number of records, any keys)']},
    'C13': {'assumptions': ['the foreign keys of a record type are those '
                            'registered by TableSet.__init__ (proved for '
                            'the record types of the bounded stand-in)'],
            'bounded': ['the wiring of foreign keys by TableSet.__init__: '
                        'three record types with up to two foreign keys and '
                        'histories of 3 insertions with symbolic texts']},
    'C14': {'assumptions': [PURE]},
    'C36': {'assumptions': [
        'the aggregation function returns (it is pure); the mapped function '
        'may fail and its outcome may depend on all earlier calls',
        'check_mem_usage only logs']},
    'C40': {'assumptions': [
        'the aggregation function returns (it is pure); check_mem_usage only '
        'logs', 'concurrent.futures: what is submitted is called once in some '
        'process and its outcome is the result of its future; as_completed '
        'gives every future once, in any order']},
    'C37': {'assumptions': ['traceback.format_tb returns a list of texts']},
    'C38': {'assumptions': [
        'id() is injective on the objects of a sequence (they are alive '
        'together, or the interpreter never reuses an id, as Jython)',
        'cPickle.loads(cPickle.dumps(x)) equals x']},
    'C39': {'assumptions': ['the progress function returns']},
    'C21': {'assumptions': [
        'parsers.VulnerabilityModelParser gives the records of the file; '
        'scientific.VulnerabilityFunction is a function of its arguments or '
        'raises a ValueError']},
    'C22': {'assumptions': [
        'parsers.FragilityModelParser gives the format with the limit '
        'states and then one item per taxonomy, with at least one level and '
        'one set of parameters per limit state in order',
        REALS]},
    'C23': {'assumptions': [
        'ConfigParser gives the sections of the file and the items of a '
        'section; no parameter is called inputs, base_path or source_file',
        'os.path.isabs and os.path.join by their POSIX meaning; abspath and '
        'the folder of an absolute path are absolute',
        'csv.reader gives the rows of the file, of two columns; lxml gives '
        'the branch sets and the texts of their models in document order',
        'sorted() of a set of texts gives its elements in order']},
    'C29': {'assumptions': [DEC]},
    'C30': {'assumptions': [
        DEC, REALS, 'random.Random(seed) is a deterministic generator of '
        'numbers of the interval [0, 1)',
        'identifiers are distinct in a branch set (C31)']},
    'C31': {'assumptions': [DEC, LXML]},
    'C32': {'assumptions': [LXML]},
    'C33': {'assumptions': [
        'the source and magnitude distribution classes of hazardlib: '
        'AreaSource is a subclass of PointSource, the others are not '
        'related; modify() has no other effect than on its object']},
    'C34': {'assumptions': [
        LXML, 'the set of available ground motion models is a dictionary '
        'that does not change']},
    'C35': {'assumptions': [
        DEC, 'nrmllib.node.node_from_xml returns the nodes of the file',
        'the branch set identifiers of a file are distinct',
        'sorted, itertools.groupby, itertools.product and the number of '
        'elements of a set are modelled by their documented meaning']},
    'C24': {'assumptions': [REALS, PURE]},
    'C25': {'assumptions': [
        REALS, 'the mesh of an area has at least one point and as many '
        'longitudes as latitudes',
        '10 ** x and math.log10 are inverse, 10 ** (x + y) is the product '
        '(real exponentiation)',
        'the hazardlib classes keep their parameters as attributes; '
        'AreaSource is a subclass of PointSource',
        'copy.copy of a source is a shallow copy']},
    'C26': {'assumptions': [
        REALS, PURE, 'the pieces of a source are those of C25; '
        'general.block_splitter by its contract (C01-C03)']},
    'C27': {'assumptions': [
        PURE, 'SourceModelParser.parse delivers the sources of the file',
        'sorted() sorts by the order of the collectors; the values of a '
        'dictionary are those of its keys, each once']},
    'C28': {'assumptions': [
        REALS, 'the hazardlib classes keep their parameters as attributes '
        '(signatures of hazardlib); shapely.wkt.loads is a function of the '
        'text, all the points of a geometry have the same dimension',
        'the rings of shapely polygons are closed (the last point repeats '
        'the first)', 'error classes can be created from a message'],
        'bounded': ['2 and 3 dimensional points (any number of points)']},
    'C15': {'assumptions': [
        'the file system is a map from paths to texts; what was written to a '
        'file is there once it is flushed, repositioned or closed',
        'zipfile gives the latest entry of a name; a temporary file is '
        'outside the archive', 'names without folders; os.listdir, namelist '
        'and infolist give each name in some order',
        'files opened through different calls are distinct objects; '
        'StringIO by its documented meaning']},
    'C16': {'assumptions': [
        'the archive is any that gives back what was written (C15)',
        'csv.reader gives the rows that csv.writer has written',
        'record types with the same name are the same',
        'a record is made of its row, and its row of it (C10)',
        'a manager reads a type once']},
    'C17': {'assumptions': [WAY, NRML + 'as many ratios and coefficients as '
                            'levels'], 'bounded': BACK},
    'C18': {'assumptions': [WAY, NRML + 'one function per limit state, in order, '
                            'as many probabilities as levels'],
            'bounded': BACK},
    'C19': {'assumptions': [WAY, NRML + 'identifiers are distinct'],
            'bounded': BACK},
    'C20': {'assumptions': [WAY, NRML + 'one field per type and rupture in a set'],
            'bounded': BACK},
    'C41': {'assumptions': [
        'writing and reading the records of a type by C16, the search in a '
        'file by C14, the records of a model by C17-C20, the record types of '
        'a converter by their definition', 'str.split at the double '
        'underscore gives one, two or more parts; sorted() sorts names',
        'no file is named after the abstract class Record',
        'the managers of a group are compared through their attributes']},
}
