#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
B = 'openquake/commonlib/'
TESTS = ("the unit tests of this module need numpy/lxml/nrmllib/hazardlib and do not run here at all; "
         "where they do run they sample a handful of fixed inputs")


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[B + f for f in files],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=B + w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=None)))


# ---------------------------------------------------------------- general
prop('C01', 'Splitting into weighted blocks loses, duplicates and reorders nothing',
     'Splitting a sequence of items into weighted blocks yields non-empty blocks whose concatenation is exactly the items '
     'of non-zero weight, each exactly once and in their original order. This holds for every sequence, every maximum '
     'weight, every weight function and every kind function, also when the splitting is asked for by a number of blocks '
     'instead of by a maximum weight.',
     ['inputs'], 'all item sequences, all non-negative weight functions, all kind functions, all positive limits or hints',
     'tests split a five-letter string and a few sources; ' + TESTS,
     ['general.py'], [('block_splitter', 'general.py block_splitter'), ('split_in_blocks', 'general.py split_in_blocks')],
     observe=['blocks yielded'])
prop('C02', 'Blocks are homogeneous, correctly weighed and respect the maximum weight',
     'Every block yielded when splitting by a maximum weight contains items of one kind only, reports as its weight the sum '
     'of the weights of its items, and exceeds the maximum only when it consists of a single item. A new block is started '
     'only when the next item (ignoring items of zero weight) is of a different kind or would push the current block over the maximum. '
     'A maximum that is not positive, and any item of negative weight, is refused with a ValueError.',
     ['inputs'], 'all item sequences, weight functions, kind functions and limits (weights as exact numbers)',
     'needs every interleaving of kinds, zero weights and limits; tests use one kind and unit weights',
     ['general.py'], [('block_splitter', 'general.py block_splitter')], observe=['blocks yielded', 'ValueError'])
prop('C03', 'Splitting by number of blocks uses the balanced limit',
     'Splitting a finite sequence by a hint n is the same as splitting it with the maximum weight equal to the total weight '
     'divided by n, rounded up to an integer. In particular items of weight one and of one kind give at most n blocks. '
     'A hint that is not positive is refused.',
     ['inputs'], 'all finite sequences, weight functions, kinds and hints',
     'the tests split two short sequences', ['general.py'],
     [('split_in_blocks', 'general.py split_in_blocks')], observe=['blocks yielded'])
prop('C04', 'A weighted sequence always knows its total weight',
     'A weighted sequence built by any combination of construction, appending, inserting and extending holds exactly the '
     'inserted items at the positions asked for, and its weight is the sum of the weights given for them. Adding two, or '
     'merging a list of them, gives the items of all in order with the sum of the weights and leaves the operands '
     'unchanged; sequences are ordered by weight and are equal exactly when they contain equal items in the same order.',
     ['inputs', 'histories'], 'all sequences of insert/append/extend operations and all lists of operands (weights as exact numbers)',
     'a history property over all operand lengths; tests check one merge', ['general.py'],
     [('WeightedSequence', 'general.py WeightedSequence')],
     state=[('weight', 'sum of inserted weights', 'WeightedSequence.weight')])
prop('C05', 'Deduplication keeps the first occurrence of every key, in order',
     'Extracting the distinct keys of a sequence returns each value occurring in it exactly once, ordered by first '
     'occurrence, and nothing else.',
     ['inputs'], 'all finite sequences of hashable keys', 'tests use one or two short lists', ['general.py'],
     [('distinct', 'general.py distinct')])
prop('C06', 'Deep comparison agrees with structural equality up to the precision',
     'Deep comparison of two values reports equality exactly when the two have the same structure (same lengths, same '
     'keys, same classes, same attributes) at every depth, equal non-numeric leaves and numeric leaves equal to the '
     'given number of decimals. Attributes and keys listed as excluded are ignored at every depth. The comparison answers with a boolean and a '
     'message, which is empty exactly on equality, and does not raise for nested lists, tuples, dictionaries, objects, strings and numbers.',
     ['inputs'], 'all nestings of lists, tuples, dictionaries, objects with attributes or slots, strings and numbers',
     'a recursive property over unbounded nesting; the tests compare a few fixed pairs', ['general.py'],
     [('deep_eq', 'general.py deep_eq/_deep_eq')], observe=['(bool, message)'])
# ---------------------------------------------------------------- valid
prop('C07', 'Numeric validators accept exactly the numbers in range',
     'The validators for longitude ([-180,180]), latitude ([-90,90]), probability ([0,1]), a general float range, positive '
     '(non-negative) floats and positive (non-negative) integers accept a text exactly when it denotes a number in the range, bounds included, '
     'and return that number. Every other text, including nan, infinities outside the range and text that is not a number, is refused with '
     'a ValueError and no other exception.',
     ['inputs'], 'all strings, all 64-bit floats including nan and the infinities',
     'tests try two or three texts per validator', ['valid.py'],
     [('longitude', 'valid.py longitude'), ('latitude', 'valid.py latitude'), ('positivefloat', 'valid.py positivefloat'),
      ('positiveint', 'valid.py positiveint'), ('FloatRange', 'valid.py FloatRange')])
prop('C08', 'Text validators accept exactly their language',
     'An identifier is a non-empty text of letters, digits and underscores not starting with a digit; a name list is a '
     'blank-separated non-empty list of identifiers, returned as a list in order; a choice accepts exactly the listed values; a '
     'boolean accepts exactly 0, 1, true and false in lower case; a non-empty text is any text but the empty one. An '
     'optional validator maps the empty text to None and otherwise behaves like the validator it wraps. An accepted text '
     'is returned unchanged (or as the value it denotes) and a refused one gives a ValueError.',
     ['inputs'], 'all strings', 'tests try a few texts per validator', ['valid.py'],
     [('Regex/name', 'valid.py Regex'), ('namelist', 'valid.py namelist'), ('Choice', 'valid.py Choice'),
      ('boolean', 'valid.py boolean'), ('NoneOr', 'valid.py NoneOr'), ('not_empty', 'valid.py not_empty')])
prop('C09', 'Intensity measure types are parsed completely or refused',
     'A text is accepted as an intensity measure type exactly when the whole of it is PGA, PGV, PGD, IA, RSD, MMI or '
     'SA(x) with x an unsigned decimal number. The result names the type; for SA(x) it carries the period x and a damping '
     'of 5, for the others neither. Every other text is refused with a ValueError.',
     ['inputs'], 'all strings', 'tests try four texts', ['valid.py'], [('IMTstr', 'valid.py IMTstr')])
# ---------------------------------------------------------------- record
prop('C10', 'Casting, validity and tuple conversion of a record agree',
     'Casting a record yields either a tuple whose i-th entry is the i-th text converted by the i-th field and no error, or no tuple '
     'and an error that lists exactly the fields whose text is refused, in order, with their messages. Converting to a tuple '
     'returns that tuple or raises that error, and a record is valid exactly when no field is refused and every '
     'check attached to its type passes.',
     ['inputs'], 'all record types, all rows, all validators that return or raise ValueError',
     'tests cast a handful of rows of one record type', ['record.py'],
     [('Record.cast', 'record.py Record.cast'), ('Record.is_valid', 'record.py Record.is_valid'),
      ('Record.to_tuple', 'record.py Record.to_tuple')])
prop('C11', 'Record fields are addressed consistently by name and by position',
     'Fields appear in the order in which they are declared, inherited fields first; a constructor argument given by position or by name (empty text if '
     'omitted) is the value read back by index and by field name, and the attribute of that name gives it converted by the '
     'validator of the field. Assigning an invalid text raises the ValueError of the validator and leaves the record '
     'unchanged; assigning a valid one changes that field only. Two records are equal exactly when they have '
     'the same length and the same texts.',
     ['inputs', 'programs'], 'all record types, all rows, all field names and indices',
     'depends on every record type a client may declare; tests declare one or two', ['record.py'],
     [('MetaRecord', 'record.py MetaRecord'), ('Record', 'record.py Record'), ('Field', 'record.py Field')])
prop('C12', 'A table never holds two records with the same unique key',
     'After any history of inserting, replacing and deleting records, no two records of a table agree on the fields of a '
     'unique constraint of their type, and looking up a primary key returns exactly the stored record with that key or raises a KeyError '
     'if there is none. An operation that would break uniqueness raises a KeyError and leaves the table, its lookups '
     'included, as it was.',
     ['histories', 'inputs'], 'all histories of insert/append/replace/delete on tables with any number of unique constraints',
     'tests insert one duplicate into a small table; uniqueness is a history property', ['record.py'],
     [('Table.insert', 'record.py Table.insert'), ('Table.__setitem__', 'record.py Table.__setitem__'),
      ('Table.__delitem__', 'record.py Table.__delitem__'), ('Table.getrecord', 'record.py Table.getrecord')],
     state=[('index', 'per constraint: key -> record', 'UniqueData.dict')])
prop('C13', 'Table sets keep foreign keys satisfied',
     'A record whose unique keys are new is inserted in a table set exactly when for each of its foreign keys the referenced '
     'table holds a record with that key; otherwise a ForeignKeyError is raised and no table changes. The record goes at the end of the table of its own type '
     'and no other table changes, and inserting many records is inserting them one by one in order.',
     ['histories', 'inputs'], 'all insertion histories into the tables of any converter',
     'tests insert one orphan record', ['record.py'],
     [('TableSet.check_fk', 'record.py TableSet.check_fk'), ('TableSet.insert', 'record.py TableSet.insert')])
prop('C14', 'The search for invalid records reports all of them and only them',
     'Searching a sequence of records for invalid ones yields one error for every record that cannot be cast, in order, each '
     'carrying the zero-based position of its record and the list of its refused fields, and none for a record that can be cast.',
     ['inputs'], 'all finite sequences of records', 'tests use one file with two bad rows', ['record.py'],
     [('find_invalid', 'record.py find_invalid')])
# ---------------------------------------------------------------- csvmanager
prop('C15', 'Archives give back what was stored and say when nothing was',
     'In a directory, zip or in-memory archive, a file that was written and closed is listed, is reported as contained and '
     'reads back with the same content. Opening for reading a name that is not there raises the archive\'s own '
     'not-in-archive error, whatever the kind of archive; closing the archive closes every file opened through it.',
     ['inputs', 'histories'], 'all names and contents, all three kinds of archive',
     'the tests use one or two files in memory and do not run here', ['csvmanager.py'],
     [('Archive', 'csvmanager.py Archive'), ('DirArchive', 'csvmanager.py DirArchive'), ('ZipArchive', 'csvmanager.py ZipArchive'),
      ('MemArchive', 'csvmanager.py MemArchive')])
prop('C16', 'Records survive a round trip through CSV files',
     'Records written to an archive, closed and read back by a manager with the same prefix and header setting are the same '
     'records in the same order, one file per record type, named after prefix and type. A file whose header differs from the '
     'field names of the record type is refused with an InvalidFile error.',
     ['inputs', 'histories'], 'all sequences of records of all types, interleaved in any order, any texts',
     'tests write two or three plain rows', ['csvmanager.py'],
     [('CSVManager.write', 'csvmanager.py CSVManager.write'), ('CSVManager.read', 'csvmanager.py CSVManager.read')])
# ---------------------------------------------------------------- converter
prop('C17', 'Vulnerability models convert to records without loss',
     'Converting a vulnerability model to records yields, in document order, one record per vulnerability set, one per '
     'function of the set, and one per level of each function, with the identifiers of the set and function it belongs to and with the i-th intensity '
     'level, loss ratio and coefficient together. Converting those records back gives a model with the same sets, functions, levels and values.',
     ['inputs'], 'all vulnerability models with any number of sets, functions and levels (as many ratios and coefficients as levels)',
     'one example file in the tests, which do not run here', ['converter.py', 'records.py'],
     [('Vulnerability.node_to_records', 'converter.py Vulnerability'), ('Vulnerability.to_node', 'converter.py Vulnerability')])
prop('C18', 'Fragility models convert to records without loss',
     'Converting a fragility model, discrete or continuous, to records yields the model record, one record per limit state '
     'in order, one per function set numbered from 1, and for each set and limit state the data of its function (each '
     'level with its probability, or mean and standard deviation). Converting those records back gives a model with the same '
     'limit states, sets and functions.',
     ['inputs'], 'all fragility models of both formats, one function per limit state',
     'one example file per format in the tests, which do not run here', ['converter.py', 'records.py'],
     [('FragilityDiscrete', 'converter.py FragilityDiscrete'), ('FragilityContinuous', 'converter.py FragilityContinuous')])
prop('C19', 'Exposure models convert to records and back without loss',
     'Converting an exposure model to records yields every asset, cost, occupancy and cost type of the model once, and one '
     'location record per distinct pair of coordinates, to which the assets at that place refer. Converting those records back gives a model with the same assets '
     'in the same order, each with its own location, costs and occupancies.',
     ['inputs'], 'all exposure models: shared locations, assets with different costs and occupancy periods, optional attributes',
     'two example files in the tests, which do not run here', ['converter.py', 'records.py'],
     [('Exposure.node_to_records', 'converter.py Exposure'), ('Exposure.to_node', 'converter.py Exposure')])
prop('C20', 'Ground motion fields convert to records without loss',
     'Converting a ground motion field set or collection to records yields one record per set, one per field with the identifier of its set, its intensity '
     'measure type (with the period for SA) and its rupture, and one per point with those and the coordinates and value of the point. '
     'Converting those records back gives the same sets, fields and points.',
     ['inputs'], 'all collections and single sets with any number of fields and points',
     'two example files in the tests, which do not run here', ['converter.py', 'records.py'],
     [('GmfCollection', 'converter.py GmfCollection')])
# ---------------------------------------------------------------- riskloaders
prop('C21', 'Vulnerability functions are grouped by taxonomy and loss type',
     'Loading vulnerability functions for a list of loss types gives for every taxonomy exactly the loss types whose file '
     'defines it, each with the function from that file built from the values in the file; loss types without a file are skipped. The file of a '
     'loss type is found under its cost type (occupants for fatalities), with the retrofitted suffix when asked for. A taxonomy '
     'appearing twice in a file, or a function that cannot be built, is refused with a ValueError naming it.',
     ['inputs', 'configurations'], 'all sets of files, all lists of loss types, all file contents',
     TESTS, ['riskloaders.py'],
     [('get_taxonomy_vfs', 'riskloaders.py get_taxonomy_vfs'), ('_get_vulnerability_functions', 'riskloaders.py'),
      ('get_risk_models', 'riskloaders.py get_risk_models')])
prop('C22', 'Fragility models are loaded state by state',
     'Loading a fragility model gives the damage states (no damage first, then the limit states in order) and for each '
     'taxonomy one function per limit state in order, carrying the intensity measure type of that taxonomy. A discrete function with a no-damage limit starts '
     'at that limit with probability zero; one without it starts at the first level; a continuous one has the given mean and standard deviation.',
     ['inputs'], 'all fragility models of both formats', TESTS, ['riskloaders.py'],
     [('get_damage_states_and_risk_models', 'riskloaders.py')])
# ---------------------------------------------------------------- readini
prop('C23', 'Job configuration keeps every parameter and resolves every path',
     'Parsing a job configuration keeps every parameter of every section with its value, lists every parameter ending in '
     '_file under the inputs by its name without that suffix, as an absolute path resolved against the folder of the configuration '
     'file unless already absolute, and nothing else there but the source model files of the logic tree, if one is given: each once, '
     'sorted, resolved the same way. Sites given as a CSV file become a MULTIPOINT of all its points in order.',
     ['inputs', 'configurations'], 'all sections, keys and values; all site files; all logic trees',
     TESTS, ['readini.py'], [('parse_config', 'readini.py parse_config'), ('_parse_sites_csv', 'readini.py _parse_sites_csv'),
                             ('_collect_source_model_paths', 'readini.py')])
# ---------------------------------------------------------------- source
prop('C24', 'Source collectors track sources, magnitudes and ruptures exactly',
     'A collector, however it was filled, holds exactly the sources it was given, in order and all of its tectonic region '
     'type, with the smallest minimum and largest maximum magnitude among them; a source of another region type is refused and changes nothing. '
     'Filtering returns a new collector holding exactly the accepted sources in order and leaves the original unchanged. Counting the ruptures of a source '
     'adds them to the total; collectors are ordered by number of sources and then by region type.',
     ['histories', 'inputs'], 'all histories of updates, initial source lists and filters (magnitudes as exact numbers)',
     TESTS, ['source.py'], [('SourceCollector', 'source.py SourceCollector')])
prop('C25', 'Splitting a source conserves its occurrence rates',
     'Splitting an area source gives one point source per mesh point, at that point, whose rates add up to those of the '
     'area for every magnitude; splitting a fault source gives one source per magnitude with non-zero rate, in order, with '
     'exactly that magnitude and rate. All other parameters are those of the original, the identifiers are distinct, that '
     'of the original with a dash and the position of the piece, the original is unchanged, and any other kind of source is returned as it is.',
     ['inputs'], 'all meshes, all magnitude-frequency distributions, all sources (rates as exact numbers)',
     TESTS, ['source.py'], [('area_to_point_sources', 'source.py'), ('split_fault_source', 'source.py'), ('split_source', 'source.py')])
prop('C26', 'Filtering, splitting and grouping sources delivers each piece once',
     'Generating the blocks of a collector delivers, in order and exactly once each, all pieces with ruptures of the sources accepted by the '
     'filter, in blocks of total rupture count not above the scaled limit unless a block is a single piece. Afterwards the '
     'collector holds exactly the pieces of the accepted sources, has counted their ruptures, and reports the number of those '
     'pieces out of that number plus the discarded sources. A collector without sources is refused.',
     ['inputs', 'histories'], 'all collectors, filters, limits and splittings', TESTS, ['source.py', 'general.py'],
     [('SourceCollector.gen_blocks', 'source.py'), ('SourceCollector._filter_and_split_sources', 'source.py')])
prop('C27', 'Reading a source model loses no source and refuses duplicates',
     'Reading a source model applies the uncertainties once to every source and returns one collector per tectonic region '
     'type occurring in the model, each with exactly the sources of that type in document order; the collectors are sorted by number of sources and '
     'then by type. Two sources with the same identifier are refused with a DuplicateID error.',
     ['inputs'], 'all source models', TESTS, ['source.py'], [('parse_source_model', 'source.py parse_source_model')])
prop('C28', 'Sources and ruptures are converted parameter by parameter',
     'Converting a source or rupture from its NRML form gives the object of the corresponding class in which every '
     'parameter (identity, geometry in order, depths, angles, distributions with their probabilities, magnitude distribution, scaling relation) '
     'is the one of the input or of the converter\'s settings, and leaves the input unchanged. An error is reported as the same '
     'kind of error, with the identifier and name of the source.',
     ['inputs', 'configurations'], 'all NRML sources and ruptures of the seven kinds, all converter settings',
     TESTS, ['source.py'], [('NrmlHazardlibConverter', 'source.py NrmlHazardlibConverter')])
# ---------------------------------------------------------------- logictree
prop('C29', 'Logic tree paths are enumerated completely, once, with product weights',
     'Enumerating the paths of a logic tree yields every sequence of branches from the root to a leaf exactly once, '
     'in document order, with weight equal to the product of the weights of its branches. If in every branch set '
     'the weights sum to 1, the weights of all paths sum to 1. Iterating a tree without sampling gives these paths as '
     'realizations: the value of the first branch, the weight and the branch identifiers.',
     ['inputs'], 'all finite trees of branch sets (weights as exact numbers)', TESTS, ['logictree.py'],
     [('BranchSet.enumerate_paths', 'logictree.py'), ('BaseLogicTree.__iter__', 'logictree.py')])
prop('C30', 'Sampling follows the weights and is reproducible',
     'Sampling one branch returns the first branch whose cumulative weight reaches the number drawn, so never a branch of a '
     'later interval; taking n samples draws n numbers and gives n branches. A sampled path goes from the root to a leaf, with the value of '
     'its first branch, and iterating a tree with n samples gives n such paths, the same ones for the same seed.',
     ['inputs'], 'all branch sets with weights summing to 1, all draws, all seeds', TESTS, ['logictree.py'],
     [('sample_one', 'logictree.py'), ('sample', 'logictree.py'), ('BaseLogicTree.sample_path', 'logictree.py')])
prop('C31', 'Branch sets are accepted only if ids are unique and weights sum to 1',
     'Parsing a branch set attaches one branch per branch of the document, in order, with its identifier, weight and parsed '
     'value, if and only if the weights sum to 1 exactly and no identifier was used before in the tree; otherwise a '
     'ValidationError is raised. When validation is requested every value is validated before it is used.',
     ['inputs'], 'all branch sets and all trees parsed so far (decimal weights as exact numbers)', TESTS, ['logictree.py'],
     [('BaseLogicTree.parse_branches', 'logictree.py')])
prop('C32', 'Branch sets are attached exactly where the tree says',
     'Each branch set after the first becomes the child of exactly the branches it names or, naming none, of all branches of the '
     'previous level; the first one becomes the root. Naming an unknown branch, one that already has a child or one not '
     'of the previous level is a ValidationError. A level all of whose branch sets are skipped leaves the open branches '
     'as they were, so the next level is attached to them.',
     ['inputs', 'histories'], 'all sequences of branching levels', TESTS, ['logictree.py'],
     [('BaseLogicTree.parse_branchinglevel', 'logictree.py'), ('apply_branchset', 'logictree.py')])
prop('C33', 'Uncertainties touch exactly the sources they apply to',
     'An uncertainty is applied to a source exactly when the source passes every filter of the branch set (region type, source type, '
     'identifiers) and has a truncated Gutenberg-Richter distribution; then exactly the modification of its type is made '
     'with its value, and otherwise nothing is changed. Source types are told apart although an area source is also a '
     'point source; applying a path applies the uncertainties of its branches, in order from the root.',
     ['inputs'], 'all branch sets, filters, values and sources', TESTS, ['logictree.py'],
     [('BranchSet.filter_source', 'logictree.py'), ('BranchSet.apply_uncertainty', 'logictree.py'),
      ('make_apply_uncertainties', 'logictree.py')])
prop('C34', 'Validation refuses exactly the ill-formed branch sets and values',
     'In a source model tree the first level must be one branch set of source models and no other level may contain those or '
     'ground motion models; a source model set has no filters, every other set at most one, naming only existing sources, types or '
     'regions, and an absolute uncertainty exactly one source. A pair of numbers is required for absolute a and b values and one number for '
     'the rest. In a ground motion tree sets of regions not '
     'asked for are skipped, and every other level has one set of ground motion models for one known region, each '
     'region exactly once; everything else is a ValidationError.',
     ['inputs'], 'all filters, uncertainty types, depths, numbers, values and sets of known sources', TESTS, ['logictree.py'],
     [('SourceModelLogicTree.validate_*', 'logictree.py'), ('GMPELogicTree.validate_*', 'logictree.py')])
prop('C35', 'Ground motion realizations cover all combinations exactly once',
     'Iterating a ground motion logic tree for given region types yields every combination of one branch per region type present '
     'in the file exactly once, with the chosen model of each region type, the branch identifiers in that order and the product of the weights; their '
     'number is the product of the branch numbers and the weights sum to 1. Repeated region types, a level '
     'with several branch sets, other uncertainty types, a file giving a region type twice, and a file with no branch for the given region types are refused. '
     'In a full ground motion tree a path of branch identifiers gives the model of each region type met on it, and is refused if a region type is met twice.',
     ['inputs'], 'all files (distinct branch set identifiers), all sets of region types, all identifiers (decimal weights as exact numbers)', TESTS, ['logictree.py'],
     [('GsimLogicTree', 'logictree.py GsimLogicTree'), ('BranchTuple', 'logictree.py BranchTuple'),
      ('GMPELogicTree.make_trt_to_gsim', 'logictree.py GMPELogicTree')])
# ---------------------------------------------------------------- parallel
prop('C36', 'Sequential map-reduce is a fold, and failures are not lost',
     'With distribution disabled, map-reduce calls the function once per argument tuple, in order, and returns the fold of the aggregation '
     'function over the results from the initial value. If some call fails, a RuntimeError with its error message and traceback is '
     'raised and no later result is aggregated. Waiting for the tasks returns their number.',
     ['inputs', 'fault_sequences'], 'all functions, argument lists, aggregation functions and initial values; failures at any position',
     TESTS, ['parallel.py'], [('map_reduce', 'parallel.py'), ('TaskManager.aggregate_results', 'parallel.py'), ('TaskManager.wait', 'parallel.py')])
prop('C37', 'A safe call never raises and reports the outcome faithfully',
     'A safe call returns the result and no exception type if the function returns, and otherwise a text with traceback and '
     'message (if it can be printed) and the class of the exception; it never raises. With pickling the arguments are unpickled first and the pair is '
     'returned pickled.',
     ['inputs', 'fault_sequences'], 'all functions, arguments and exceptions', TESTS, ['parallel.py'],
     [('safely_call', 'parallel.py safely_call'), ('Pickled', 'parallel.py Pickled')])
prop('C38', 'Pickling a sequence preserves every object and its position',
     'Pickling a sequence gives one pickled object per element, in order, which unpickles to an equal element; an element already pickled is kept as '
     'it is, and an object occurring several times is pickled only once.',
     ['inputs'], 'all sequences of objects alive together, with repetitions and pickled elements', TESTS, ['parallel.py'],
     [('pickle_sequence', 'parallel.py pickle_sequence')])
prop('C39', 'Progress reports are monotone and complete',
     'For any positive number of tasks the progress log announces the number of tasks first, then strictly increasing '
     'percentages below 100, each the integer part of the share of tasks done, and 100 once at the end; it never interrupts the computation.',
     ['inputs'], 'all numbers of tasks', TESTS, ['parallel.py'], [('log_percent_gen', 'parallel.py log_percent_gen')])
prop('C40', 'Distributed map-reduce aggregates every result exactly once',
     'With distribution enabled, map-reduce submits a safe call of the function to the executor once per argument tuple, in order, and '
     'returns the fold of the aggregation function over all the results in the order in which they are completed, each exactly once, from the '
     'initial value. If some call fails, a RuntimeError with its error message and traceback is raised and no result completed later is '
     'aggregated. Waiting for the tasks returns their number.',
     ['inputs', 'schedules', 'fault_sequences'], 'all functions, argument lists, aggregation functions, initial values and orders of completion',
     TESTS, ['parallel.py'], [('TaskManager.submit', 'parallel.py'), ('TaskManager.aggregate_result_set', 'parallel.py'),
                              ('TaskManager.aggregate_results', 'parallel.py')])

prop('C41', 'Archives of CSV files are converted by groups of files with a prefix',
     'The files of an archive named <prefix>__<record type>.csv form one group for each prefix, converted by the converter of the record type of its first '
     'file in alphabetical order; other files are ignored. A table set read from an archive with one group, by the manager of its prefix, has that converter and exactly the '
     'records of the files of its record types (missing files are skipped); no group (NotInArchive) or several (MultipleManagerError) are refused. '
     'Converting a model, by the converter of its kind, writes exactly its records under the prefix, with a header or not as the manager. The search for invalid records gives those of '
     'the files of every group, each with the name of its file, or the first of them up to the limit.',
     ['inputs'], 'all archives, prefixes, models and limits', TESTS, ['csvmanager.py', 'converter.py'],
     [('CSVManager', 'csvmanager.py _getmanagers, _getconverter, get_tableset, convert_from_node, find_invalid'),
      ('Converter.from_node', 'converter.py')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
