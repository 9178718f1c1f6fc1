"""which contract modules and harnesses decide which property"""
import os

ASSUMPTIONS = [
    'unsigned + and * are mathematical (no wrap-around beyond 2^64); unsigned - is exact modulo 2^64; signed overflow is not an obligation',
    'double and float arithmetic is treated as exact real arithmetic',
    'partial correctness: termination is not proved',
    'reference parameters do not alias each other or members, unless the contract says so',
    'allocation does not fail; standard-library behaviour is as modelled in cppvc/stdlib.py',
]
PROPS = {
    'C01': dict(modules=['ndarray'], harness=['ndarray'], bounded='at(i,j,...) and the iterator-range constructor; element types other than double',
                note='unbounded proof for every shape and coordinate over real code; assumes the std::vector model, one flat vector behind the container, no 2^64 overflow'),
    'C02': dict(modules=['ndarray'], harness=['ndarray'], bounded='chains of up to three views, reshape(i,j,...)',
                note='unbounded proof of slice, rslice and reshape as view transformers; composition by the well-formedness they keep; same assumptions as C01'),
    'C03': dict(modules=['ndarray'], harness=['ndarray'], bounded='concatenate; range-for over views',
                note='unbounded proof of the iterator, size, copy and equality contracts; concatenate is bounded; one known finding'),
    'C04': dict(modules=['ndarray'], harness=['ndarray'], bounded='sum, trapz, argmin, argmax (small shapes)',
                note='unbounded proof for unravel_index; the reductions are bounded stand-ins'),
    'C10': dict(modules=['mathfn'], harness=['mathfn'], bounded='products of functions and the numerical integration rules (random small cases)',
                note='unbounded proof of evaluation, derivative, antiderivative and piecewise evaluation and integration over the reals; products and numerical rules are bounded stand-ins'),
    'C11': dict(modules=['mathfn'], harness=['mathfn'], bounded='spline values, repeated points, interpolation of a data set',
                note='unbounded proof that the linear interpolant and simple_interpolation take the knot and segment values and refuse bad input, over the reals; splines are bounded'),
    'C12': dict(modules=['cumul'], harness=['cumul'], bounded='nothing: the harness only replays (integer densities, fractions in sixteenths)',
                note='unbounded proof of every function of the class over the reals; needs at least one sample, an increasing grid, a non-negative density and, for the smallest interval, some mass'),
    'C20': dict(modules=['cosmo'], harness=['cosmo'], bounded='accuracy of the numerical integral (random cosmologies, redshifts up to about ten)',
                note='unbounded proof of every relation between the distances over the reals, with the transcendental functions uninterpreted and the integrand shown to be 1/E; the numerical value of the integral is a bounded check'),
    'C17': dict(modules=['xyd'], harness=['xyd'], bounded='the file-system provider and the text parser (random directory trees)',
                note='unbounded proof of names, their order and hashes, data sets and the caching provider; assumes boost::split and, for the cache, that the provider behind it answers by name; the file-system provider is bounded'),
    'C05': dict(modules=['kdtree'], harness=['kdtree'], bounded='one, two and four dimensions, other leaf sizes (random small clouds with ties and duplicates)',
                note='unbounded proof for three dimensions and four points per leaf, over the reals, that building and searching keep every point as often as it was put in; a radius is not negative; the coordinates of a point are uninterpreted; std::sort is assumed to sort and permute'),
    'C06': dict(modules=['grid'], harness=['grid'], bounded='one, two and four axes, text axes and the std::vector cell manager (random small grids)',
                note='unbounded proof for three axes of any sizes, with an index-based cell manager; needs at least one knot per axis; other numbers of axes are bounded'),
    'C07': dict(modules=['grid'], harness=['grid'], bounded='one, two and four axes, text axes and the std::vector cell manager (random small grids)',
                note='unbounded proof for three axes of any sizes and knots; needs at least one knot per axis; other numbers of axes are bounded'),
    'C08': dict(modules=['filepool'], harness=['filepool'], bounded='closeAll and the destructor, the limit taken from the system, finding the handler of a path (random histories)',
                note='unbounded proof over every state of the pool that open, close, use and eviction keep the limit and the order of use; operations follow one another (the locks of the manager are not modelled) and a file asked to close refuses or closes itself'),
    'C09': dict(modules=['filepool'], harness=['filepool'], bounded='release of accessors by their destructors, several threads, finding the handler of a path (random histories)',
                note='unbounded proof over every state of a handler for one descriptor type; boost locks are tokens that are free or taken, and FileManager::open may close idle descriptors of the handler while it runs'),
    'C13': dict(modules=['histo'], harness=['histo'], bounded='the constructors and accessors of Histogram that only forward, single-precision and integer variables (random samples)',
                note='unbounded proof over the reals of the bin of a value, the number and width of the bins, counting, clipping and statistics for the three binning rules; needs increasing edges, a non-empty sample and, for the statistics, non-negative counts with a positive total'),
    'C14': dict(modules=['table'], harness=['table'], bounded='nothing: the harness only replays (random columns, rows and tables)',
                note='unbounded proof of column descriptions, column sets, rows and tables: what is refused, what is kept, lookup by name and by position; a cell is a value with a type and, when it is text, a text; whether a text has vertical white space is asked of boost::regex'),
    'C15': dict(modules=['ascii'], harness=['ascii'], bounded='cells read from text, names and descriptions found in the comments, the writer and the round trip (random tables and texts)',
                note='unbounded proof that reading in pieces, skipping, counting and asking for rows agree on the data lines of any text, that each gives one row whose cells are its tokens read as their column, and that the columns are those fixed or found; a stream is its sequence of lines, the tokens of a line and the cell of a token are uninterpreted; writing and parsing of single values are bounded'),
    'C16': dict(modules=['srccat'], harness=['srccat'], bounded='iteration over a photometry, conversion of cells to numbers and identifiers, attributes of other types (random catalogues, photometries and tables)',
                note='unbounded proof of catalogues, sources, photometries and of their construction from table rows (flux flags and errors included) over the reals; identifiers, cells and the conversion of cells are uninterpreted, the limits must not be zero and be as many as the filters'),
    'C18': dict(modules=['config'], harness=['config'], bounded='the options returned by closeRegistration (random graphs of six configurations)',
                note='unbounded proof for any number of configurations and any dependencies; assumes that the phases of a configuration leave the manager alone, that its constructor only registers more configurations, that initialize runs once, and that REACH is the transitive closure of the dependencies (fixpoint and least)'),
    'C19': dict(modules=['som'], harness=['som'], bounded='the kohonen neighbourhood, the constructor and access by coordinates (random maps of at most four by four cells)',
                note='unbounded proof for maps of any size with two weights per cell and any sample; a position of a grid with two axes has its own pair of coordinates (C06 and C07 prove it for three), distances stay below the largest double, weights, neighbourhood and learning functions of the user are pure, the sampling policy is any sequence of inputs, arithmetic on real numbers'),
    'C24': dict(modules=['wild'], harness=['wild'], bounded='the default instance of wildcard() (random names)',
                note='unbounded proof for any list of options and any entries; names are sequences of characters, the value of an entry is opaque'),
}
NOT_CLAIMED = {
    'C21': 'about interleavings of threads: the verifier proves sequential contracts and has no ownership or rely-guarantee reasoning; treating the mutex as sequential would assume what is to be shown',
    'C22': 'everything happens in boost archives and the serialize templates they call back: a contract for the archives strong enough to conclude would state the property itself',
    'C23': 'header text through boost::regex and streams, elements through raw bytes and memory maps: the typed memory model of the verifier has no bytes',
}
STUBS = ['-I' + os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs'), '-include', 'memory', '-include', 'functional']
MU = 'MathUtils/src/lib/'
FN = [MU + 'function/' + x + '.cpp' for x in ('Differentiable', 'FunctionAdapter', 'Piecewise', 'Polynomial', 'function_tools', 'multiplication')] + \
     [MU + 'interpolation/' + x + '.cpp' for x in ('interpolation', 'linear', 'spline')] + [MU + 'numericalIntegration/SimpsonsRule.cpp', 'XYDataset/src/lib/XYDataset.cpp']
TABLE = ['Table/src/lib/' + x + '.cpp' for x in ('AsciiReader', 'AsciiReaderHelper', 'ReaderHelper', 'ColumnDescription', 'ColumnInfo', 'Row', 'Table', 'TableWriter', 'AsciiWriter', 'AsciiWriterHelper')]
HARNESS = {
    'ndarray': {},
    'grid': dict(flags=STUBS),
    'kdtree': {},
    'som': dict(src=['SOM/src/lib/' + x + '.cpp' for x in ('ImplTools', 'InitFunc', 'LearningRestraintFunc', 'NeihbourhoodFunc')], flags=STUBS, libs=['-lboost_filesystem', '-lboost_system']),
    'config': dict(src=['Configuration/src/lib/' + x + '.cpp' for x in ('ConfigManager', 'Configuration')], flags=STUBS, libs=['-lboost_program_options']),
    'wild': dict(src=['Configuration/src/lib/ProgramOptionsHelper.cpp'], flags=STUBS, libs=['-lboost_program_options']),
    'ascii': dict(src=TABLE, flags=STUBS + ['-include', 'boost/io/quoted.hpp'], libs=['-lboost_regex']),
    'histo': dict(flags=STUBS),
    'srccat': dict(src=['SourceCatalog/src/lib/' + x + '.cpp' for x in ('Catalog', 'CatalogFromTable', 'FluxErrorPair', 'Photometry', 'PhotometryAttributeFromRow', 'TableRowAttribute', 'TableRowAttributeFromRow')] + ['Table/src/lib/' + x + '.cpp' for x in ('ColumnDescription', 'ColumnInfo', 'Row', 'Table')], flags=STUBS, libs=['-lboost_regex']),
    'table': dict(src=['Table/src/lib/' + x + '.cpp' for x in ('ColumnDescription', 'ColumnInfo', 'Row', 'Table')], flags=STUBS, libs=['-lboost_regex']),
    'filepool': dict(src=['FilePool/src/lib/' + x + '.cpp' for x in ('FileHandler', 'FileManager', 'LRUFileManager')], flags=STUBS, libs=['-lboost_filesystem', '-lboost_system', '-lboost_thread', '-lpthread']),
    'mathfn': dict(src=FN, flags=STUBS),
    'cumul': dict(src=[MU + 'PDF/Cumulative.cpp', 'XYDataset/src/lib/XYDataset.cpp'], flags=STUBS),
    'cosmo': dict(src=['PhysicsUtils/src/lib/CosmologicalDistances.cpp', 'PhysicsUtils/src/lib/CosmologicalParameters.cpp'] + FN, flags=STUBS),
    'xyd': dict(src=['XYDataset/src/lib/' + x + '.cpp' for x in ('XYDataset', 'QualifiedName', 'CachedProvider', 'FileSystemProvider', 'AsciiParser', 'StringFunctions')] + TABLE,
                flags=STUBS + ['-include', 'boost/io/quoted.hpp'], libs=['-lboost_filesystem', '-lboost_system', '-lboost_regex']),
}
