"""writes properties.jsonl and MANIFEST.json from one place"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe or [], 'hook_needed': None}})


prop('C01', 'Every in-bounds coordinate of an N-d array has its own element; others throw',
     'In an array of any shape, reading or writing at a coordinate tuple reaches exactly the element at its row-major position in the data the array was built from: distinct in-bounds tuples reach distinct elements and never memory outside the data. A tuple with the wrong number of coordinates, a coordinate beyond its axis or an unknown attribute name throws an out-of-range error, and data whose length differs from the product of the extents is refused at construction. Attribute names address the position of the first equal name on the last axis.',
     ['inputs', 'configurations'], 'all shapes (any number of axes and extents), coordinate tuples, attribute names and ways of construction',
     'Tests use a few fixed shapes of two or three axes with small extents; the statement is about every shape and every coordinate.',
     ['NdArray/NdArray/NdArray.h', 'NdArray/NdArray/_impl/NdArray.icpp'],
     [('row-major strides', 'NdArray::update_strides'), ('bounds checks and address', 'NdArray::get_offset'), ('constructors', 'NdArray::NdArray')], ['at()', 'constructors'])
prop('C02', 'Slices, reverse slices and reshapes view the right elements of the shared data',
     'A slice along the first axis or a reverse slice along the last axis shows exactly the elements of the original with that coordinate fixed, a reshape shows the same elements in the same row-major order under the new shape, and this holds for views of views; writes through a view or a shallow copy are visible in the original. Slicing out of bounds or a one-dimensional array, reshaping to another number of elements and reshaping an array with attribute names are refused and leave the array as it was. A slice keeps the attribute names of the last axis and a reverse slice, which removes that axis, has none.',
     ['inputs', 'histories'], 'all arrays and all sequences of slice, reverse slice, reshape and shallow copy',
     'Tests exercise single views of two fixed arrays; chains of views over arbitrary shapes are an unbounded space.',
     ['NdArray/NdArray/_impl/NdArray.icpp'], [('offset/stride arithmetic of views', 'NdArray::slice, NdArray::rslice, NdArray::reshape')], ['slice()', 'rslice()', 'reshape()', 'at()'])
prop('C03', 'Iterating, copying, comparing and concatenating arrays agree with their elements',
     'Iterating an array or a view visits every element exactly once in row-major order and random-access iterator arithmetic agrees with stepping; the reported size is the product of the extents. A copy has the same shape, names and elements but its own data, and two arrays compare equal exactly when shapes and all elements are equal. Concatenating along the first axis appends the rows of the other array after the existing ones and refuses other shapes.',
     ['inputs', 'histories'], 'all arrays and views, all positions and iterator offsets',
     'Tests iterate a handful of dense arrays; strided views, every offset and every shape are out of their reach.',
     ['NdArray/NdArray/NdArray.h', 'NdArray/NdArray/_impl/NdArray.icpp'], [('strided iterator', 'NdArray::Iterator'), ('deep copy', 'NdArray::copy'), ('comparison', 'NdArray::operator=='), ('append', 'NdArray::concatenate')],
     ['begin()/end()', 'size()', 'copy()', 'operator==', 'concatenate()'])
prop('C04', 'Index unravelling and axis reductions of N-d arrays are exact',
     'Unravelling a flat index gives the unique in-bounds coordinates whose row-major position is that index, and refuses every index not below the number of elements. Summing or integrating along an axis (counted from either end) combines, for each remaining coordinate tuple, exactly the elements along that axis, and the arguments of the minimum and maximum address a smallest and a largest element. Axes that do not exist and integration knots of the wrong length are refused.',
     ['inputs'], 'all shapes, indices, axes and element values', 'Tests check a few indices of one or two shapes and sums of one array.',
     ['NdArray/src/Operations.cpp', 'NdArray/NdArray/_impl/Operations.icpp'], [('mixed-radix decomposition', 'unravel_index'), ('axis reductions', 'sum, trapz, argmin, argmax')], ['unravel_index()', 'sum()', 'trapz()', 'argmin()', 'argmax()'])
prop('C05', 'A k-d tree radius query returns exactly the points within the radius',
     'For any set of points, leaf size, query point and radius (not negative), a radius search returns every point whose distance to the query point is less than the radius, each as often as it was inserted, and no other point. Building the tree neither loses nor duplicates points, however many of them share coordinates.',
     ['inputs', 'configurations'], 'all point sets (with duplicates and ties), dimensions, leaf sizes, query points and radii',
     'Tests draw a few random point clouds with one leaf size; the pruning argument must hold for every cloud and every tie.',
     ['KdTree/KdTree/KdTree.h', 'KdTree/KdTree/_impl/KdTree.icpp'],
     [('recursive split', 'KdTree::Split::Split'), ('pruned descent', 'KdTree::Split::findPointsWithinRadius, KdTree::Leaf::findPointsWithinRadius')], ['KdTree::findPointsWithinRadius()'])
prop('C06', 'Grid coordinates and flat cell positions correspond one to one',
     'For a grid whose axes have at least one knot each, converting axis indices to a flat cell position (first axis fastest) and back is the identity in both directions, distinct coordinates get distinct positions, and positions run from zero to the number of cells without gaps. Reading or writing a cell reaches the cell at that position, iterating visits every cell once in the order of positions, and iterating with some axes fixed visits exactly the cells with the fixed coordinates, with coordinates and axis values reported for the cell actually visited. Coordinates beyond an axis are refused by the checked access.',
     ['inputs', 'histories'], 'all axis sizes and coordinates, all combinations of fixed axes', 'Tests use one three-axis grid; the mixed-radix arithmetic must hold for all sizes.',
     ['GridContainer/GridContainer/GridIndexHelper.h', 'GridContainer/GridContainer/_impl/GridIndexHelper.icpp', 'GridContainer/GridContainer/GridContainer.h', 'GridContainer/GridContainer/_impl/GridContainer.icpp', 'GridContainer/GridContainer/_impl/GridIterator.icpp'],
     [('index arithmetic', 'GridIndexHelper::axisIndex, totalIndex'), ('filtered iteration', 'GridContainer::iter'), ('fixed-axis views', 'GridContainer::fixAxisByIndex')], ['GridContainer::at()', 'iter::fixAxisByIndex()', 'iter::axisValue()'])
prop('C07', 'Grid axes report their knots and a grid can be cut at any knot',
     'An axis reports its name, its number of knots and each knot value exactly as given, and iterates them in order; axes are equal when their knots are. For an increasing axis the infimum of a value is the last knot not above it, or the first knot. Fixing an axis of a grid by index or by knot value gives a slice that shares the cells: it has one knot on that axis, the other axes whole, reports their number of cells, and reaches precisely the cells with that coordinate, for reading, writing and iterating. A value that is not a knot, an index beyond the axis and an axis already fixed are refused. Fixing several axes, in any order, composes.',
     ['inputs', 'histories'], 'all axes, knot values and sequences of fixings', 'Tests fix one axis of a small grid.',
     ['GridContainer/GridContainer/GridAxis.h', 'GridContainer/GridContainer/_impl/GridAxis.icpp', 'GridContainer/GridContainer/_impl/GridConstructionHelper.h', 'GridContainer/GridContainer/_impl/GridContainer.icpp'],
     [('axis storage', 'GridAxis'), ('axes tuple handling', 'GridConstructionHelper'), ('value lookup', 'GridContainer::fixAxisByValue')], ['GridAxis', 'GridContainer::fixAxisByValue()', 'GridContainer::infimum()'])
prop('C08', 'The file pool never keeps more files open than its limit and closes the oldest',
     'A pool given a limit of at least one never has more files open than that limit, and when room is needed the one closed is the least recently used of those not in use; nothing is closed unless room is needed and no more than needed. A new file is opened only after room was made, and opening fails when every file is in use. The pool counts as open exactly the files that were opened and not closed, in the order in which they were last used, also after a file failed to open. This is for operations that follow one another.',
     ['histories'], 'all sequences of opening, using and closing files and all limits', 'Tests walk through one short scripted sequence with one limit.',
     ['FilePool/FilePool/FileManager.h', 'FilePool/src/lib/FileManager.cpp', 'FilePool/src/lib/LRUFileManager.cpp'], [('limit and eviction', 'LRUFileManager::notifyIntentToOpen'), ('recency order', 'LRUFileManager::notifyUsed, notifyOpenedFile')], ['FileManager::open/close', 'FileHandler::getAccessor()'])
prop('C09', 'File handlers reuse descriptors and keep readers and writers apart',
     'Every accessor obtained from a handler has an open descriptor of that file in the requested mode and holds the file lock, shared for reading and alone for writing, until it is released. A released descriptor becomes idle and is handed out again to the next accessor of the same mode and descriptor type; on a change of mode every idle descriptor is closed, exactly once. Trying without blocking returns nothing, and changes nothing, when the lock is taken; asking for a file that has to make room in its own handler does not block. A handler asked to close a descriptor closes it if it is idle and refuses otherwise, and destroying the handler closes every idle descriptor. While a handler is held, asking for its file gives that same handler, however the path is written and whatever other threads ask for and drop.',
     ['histories', 'schedules'], 'all sequences of acquiring, releasing and closing accessors, all files and descriptors', 'Tests use two or three accessors in one order.',
     ['FilePool/FilePool/FileHandler.h', 'FilePool/src/lib/FileHandler.cpp', 'FilePool/FilePool/_impl/FileHandler.icpp', 'FilePool/FilePool/FileAccessor.h', 'FilePool/src/lib/FileManager.cpp'], [('per-handler lock and free list', 'FileHandler::getAccessor'), ('return to free list', 'FileHandler::close')], ['FileHandler::getAccessor()', 'FileHandler::close()'])
prop('C10', 'Polynomial and piecewise functions evaluate and integrate by definition',
     'A polynomial evaluates to the sum of its coefficients times powers of the argument, and its derivative and its integral between two limits are those of that sum. A piecewise function evaluates, at any argument, the piece whose interval (open below, closed above, the first also closed below) holds it and zero outside its knots; its integral between two limits is the sum over the pieces of the integrals over the overlaps, with the sign changed when the limits are exchanged. Clones have the same values. The product of two functions has, away from knots, the product of their values. Simpson sums are exact for cubics and refining a sum gives the sum of the finer order. Decreasing knots, or a number of pieces that does not fit them, are refused.',
     ['inputs'], 'all coefficients, knots, pieces and arguments', 'Tests sample a few polynomials and arguments.',
     ['MathUtils/src/lib/function/Polynomial.cpp', 'MathUtils/src/lib/function/Piecewise.cpp', 'MathUtils/src/lib/function/function_tools.cpp', 'MathUtils/src/lib/function/multiplication.cpp', 'MathUtils/src/lib/numericalIntegration/SimpsonsRule.cpp'], [('evaluation and antiderivative', 'Polynomial::operator(), indefiniteIntegral'), ('knot search', 'Piecewise::operator()'), ('integration', 'Piecewise::integrate'), ('products', 'multiply')], ['Polynomial', 'Piecewise', 'integrate()', 'multiply()'])
prop('C11', 'Interpolants pass through their knots and stay linear between them',
     'A linear interpolant through any strictly increasing knots takes exactly the given value at each knot and, between neighbouring knots, the value on the straight segment; outside it is zero or, when extrapolation is asked for, continues the outer segments (a single point gives a constant, or zero away from it). Spline interpolants also take the given values at the knots. Points given twice count once. Decreasing knots, no knots at all, and knots whose count differs from the values are refused.',
     ['inputs'], 'all knots, values and arguments', 'Tests interpolate a few fixed data sets at a few arguments.',
     ['MathUtils/src/lib/interpolation/linear.cpp', 'MathUtils/src/lib/interpolation/spline.cpp', 'MathUtils/src/lib/interpolation/interpolation.cpp', 'MathUtils/MathUtils/interpolation/interpolation.h'], [('segment coefficients', 'linearInterpolation'), ('input checks', 'interpolate'), ('in-place interpolation', 'simple_interpolation')], ['interpolate()', 'simple_interpolation()'])
prop('C12', 'Cumulative distributions are monotone and invert to the right quantiles',
     'The cumulative built from a sampled non-negative density holds at each sample the sum of the density up to it, so it never decreases; normalising divides every value by the last, so it ends at one and quantiles stay. The value found for a fraction is the first sample whose cumulative reaches that fraction of the last value, or the last sample or the middle of the level stretch starting there. The smallest interval holding a fraction is an interval between samples that holds at least it and no shorter one between two samples does; the centred interval leaves half of the rest on either side. Copies answer alike. Samples of different lengths and fractions outside zero to one are refused.',
     ['inputs'], 'all densities and fractions', 'Tests use two or three small distributions.',
     ['MathUtils/src/lib/PDF/Cumulative.cpp', 'MathUtils/MathUtils/PDF/Cumulative.h'], [('accumulation', 'Cumulative::fromPdf'), ('search', 'Cumulative::findValue, findMinInterval, findCenteredInterval')], ['Cumulative'])
prop('C13', 'Histogram bins partition the data range and count every sample once',
     'Take edges given in increasing order (at least two), or the square-root or Scott rule over a non-empty set of floating-point values. Every value (with its weight) inside the range of the bins is counted in exactly one bin, the one whose edges hold it (lower edge included, upper edge excluded, except that the last bin includes its upper edge), and values outside are counted nowhere. The square-root rule makes the square root of the number of values rounded up, Scott\'s rule the range divided by 3.5 sigma / n^(1/3) rounded up (for equal values, a range of one around them); with both, the bins are equally wide, run from the smallest to the largest value, and every value is counted. Clipping to two values in bins that are kept keeps the bins from the one to the other with their counts, and min > max is refused with Elements::Exception. The statistics of the kept bins are the weighted mean and standard deviation of the bin centres and the place, interpolated within a bin, where half of the total weight lies below. All up to floating-point rounding.',
     ['inputs', 'configurations'], 'all samples, weights and binning rules', 'Tests use a few fixed sample vectors.',
     ['Histogram/Histogram/Histogram.h', 'Histogram/Histogram/_impl/ComputationImpl.icpp', 'Histogram/Histogram/Binning/EdgeVector.h', 'Histogram/Histogram/Binning/Sqrt.h', 'Histogram/Histogram/Binning/Scott.h'], [('bin of a value', 'BinStrategy::getBinIndex'), ('counting', 'ComputationImpl::computeBins'), ('clipping', 'ComputationImpl::clip'), ('statistics', 'ComputationImpl::getStats')], ['Histogram::getCounts()', 'Histogram::getEdges()', 'Histogram::clip()', 'Histogram::getStats()'])
prop('C14', 'Tables and rows stay consistent with their column descriptions',
     'A row always has one cell per column with the type that column declares, a table always has rows of its own columns only, and access by name and by index reach the same cell. Column names are unique and non-empty, a column is found at the position where it was declared, and unknown names or positions are refused. Malformed rows and tables are refused at construction.',
     ['inputs', 'histories'], 'all column sets, cell values and access orders', 'Tests build a few tables with fixed columns.',
     ['Table/src/lib/ColumnInfo.cpp', 'Table/src/lib/Row.cpp', 'Table/src/lib/Table.cpp', 'Table/Table/ColumnInfo.h'], [('uniqueness and lookup', 'ColumnInfo'), ('cell checks', 'Row::Row'), ('row checks', 'Table::Table')], ['Row', 'Table', 'ColumnInfo'])
prop('C15', 'A table written as text reads back as the same table',
     'Writing a table in the text format and reading it back gives the same columns (names, types, units, descriptions) and the same rows with the same values, as long as its texts have no line breaks and no comment mark, its first column is not called "Column:", and its arrays have at least one axis and one element. Reading in pieces, skipping and counting rows see the same sequence of rows as reading everything at once, and asking for the columns, the comment or the number of rows left reads nothing away. Malformed lines are refused instead of being read as other values.',
     ['inputs', 'histories'], 'all tables of supported types and all chunkings', 'Tests round-trip fixed files.',
     ['Table/src/lib/AsciiReader.cpp', 'Table/src/lib/AsciiReaderHelper.cpp', 'Table/src/lib/AsciiWriter.cpp', 'Table/src/lib/AsciiWriterHelper.cpp', 'Table/Table/TableReader.h'], [('typed parsing', 'convertToCellType'), ('chunked reading', 'AsciiReader::readImpl')], ['AsciiReader', 'AsciiWriter'])
prop('C16', 'Catalogues and photometries return what was stored under each id or filter',
     'Looking up a source by its identifier, an attribute of a source or the flux of a filter returns exactly what was stored under it, and nothing when nothing was. Iterating visits all entries in the order given. Photometries whose number of fluxes differs from the number of filters are refused.',
     ['inputs'], 'all catalogues, identifiers, filters and fluxes', 'Tests look up a few fixed sources.',
     ['SourceCatalog/src/lib/Catalog.cpp', 'SourceCatalog/SourceCatalog/SourceAttributes/Photometry.h', 'SourceCatalog/src/lib/SourceAttributes/Photometry.cpp', 'SourceCatalog/src/lib/Source.cpp'], [('id index', 'Catalog::Catalog, find'), ('filter search', 'Photometry::find')], ['Catalog::find()', 'Photometry::find()'])
prop('C17', 'Qualified names and data sets keep their parts, order and look-ups',
     'A qualified name splits at its slashes into groups and a data set name that join back to the same text; empty parts, and slashes inside a part, are refused. Names are equal exactly when their texts are, equal names have equal hashes, of two different names exactly one comes first, and a name belongs in a group exactly when the group and its parents are the beginning of its own groups. A data set keeps its pairs in the order given and refuses columns of different length. A caching provider returns for every name and group what the provider behind it returns, asking it at most once for each. A file-system provider lists every data set file below its root once, in the declared order, lists for a group exactly the names inside it, and returns the pairs of the file of that name.',
     ['inputs', 'histories'], 'all names, data sets and sequences of look-ups', 'Tests use a handful of names and one data set.',
     ['XYDataset/src/lib/QualifiedName.cpp', 'XYDataset/src/lib/CachedProvider.cpp', 'XYDataset/src/lib/XYDataset.cpp', 'XYDataset/src/lib/FileSystemProvider.cpp', 'XYDataset/src/lib/AsciiParser.cpp'], [('parsing', 'QualifiedName::QualifiedName'), ('caching', 'CachedProvider::getDataset')], ['QualifiedName', 'XYDataset', 'CachedProvider', 'FileSystemProvider'])
prop('C18', 'Configurations run in dependency order, once each, and circular ones are refused',
     'Initialising a manager pre-initialises, initialises and post-initialises every registered configuration exactly once: all are pre-initialised before the first is initialised, each is initialised after every registered configuration it depends on, by its own declaration or by a registered dependency, and all are initialised before the first is post-initialised, whatever the order of registration. Dependencies on configurations that are not registered are ignored. Closing the registration refuses circular dependencies, and nothing else; after it, registering a configuration or a dependency is refused. Registering a configuration twice has no further effect. Asking for a configuration before the manager is initialised, or for one that was never registered, is refused.',
     ['configurations', 'histories'], 'all dependency graphs and registration orders', 'Tests use graphs of two or three configurations.',
     ['Configuration/src/lib/ConfigManager.cpp', 'Configuration/Configuration/ConfigManager.h', 'Configuration/src/lib/Configuration.cpp'], [('graph traversal', 'ConfigManager::initialize, closeRegistration')], ['ConfigManager'])
prop('C19', 'A self-organising map finds the nearest cell and trains towards the input',
     'The best matching cell of an input is one whose distance to the input is smallest, and the distance reported is that one. In every iteration with a non-zero learning factor the training takes the inputs of the sampling policy one after the other, and each moves every weight of every cell towards it by the product of the neighbourhood factor of the cell and the learning factor, the best matching cell being the one before any cell moved; iterations with a zero factor change nothing. The linear learning factor is the part of the iterations left, the exponential one decays from the initial rate, linearUnitDisk is one for cells nearer than the radius times the part of the iterations left and zero for others, and kohonen is a value between zero and one that depends only on the distance of the cells and the iteration.',
     ['inputs', 'histories'], 'all maps, inputs and restraint functions', 'Tests train one or two small maps.',
     ['SOM/SOM/SOM.h', 'SOM/SOM/_impl/SOM.icpp', 'SOM/SOM/Distance.h', 'SOM/src/lib/NeihbourhoodFunc.cpp', 'SOM/src/lib/LearningRestraintFunc.cpp', 'SOM/SOM/SOMTrainer.h'], [('search', 'SOM::findBMU'), ('neighbourhood', 'NeighborhoodFunc'), ('update', 'SOMTrainer::train')], ['SOM::findBMU()', 'SOMTrainer::train()'])
prop('C20', 'Cosmological distances agree with their defining relations',
     'For any cosmology the density parameters of matter, curvature and dark energy add up to one. For any redshift the comoving distance is the Hubble distance times the integral of the inverse Hubble parameter E from zero to the redshift, and is zero at redshift zero. The transverse comoving distance is equal to it in a flat universe and follows from it by the hyperbolic sine in an open and the sine in a closed one; the luminosity distance is one plus the redshift times that (ten parsec at redshift zero), the distance modulus is five times the decimal logarithm of the luminosity distance over ten parsec, and the volume element is the square of the transverse distance over E and the square of the Hubble distance.',
     ['inputs'], 'all cosmological parameters and redshifts', 'Tests compare a few redshifts of one cosmology with a table.',
     ['PhysicsUtils/src/lib/CosmologicalDistances.cpp', 'PhysicsUtils/src/lib/CosmologicalParameters.cpp'], [('distance relations', 'CosmologicalDistances')], ['CosmologicalDistances', 'CosmologicalParameters'])
prop('C21', 'A thread pool runs every submitted task once and reports the first failure',
     'Every task submitted before blocking ends is executed exactly once, blocking returns only when all have finished, and an exception thrown by a task stops the workers and is reported. No task is executed by two workers.',
     ['schedules'], 'all interleavings of workers and submitters', 'Tests run a few tasks under whatever schedule occurs.',
     ['AlexandriaKernel/src/lib/ThreadPool.cpp', 'AlexandriaKernel/AlexandriaKernel/ThreadPool.h'], [('queue under a mutex', 'ThreadPool::submit, Worker::run')], ['ThreadPool'])
prop('C22', 'A serialised grid reads back equal',
     'Saving a grid of cells and loading it back gives the same axes and the same cell at every coordinate, for every supported cell type and in both archive formats.',
     ['inputs', 'configurations'], 'all grids and archive formats', 'Tests round-trip small fixed grids.',
     ['GridContainer/GridContainer/serialize.h', 'GridContainer/GridContainer/serialization/GridContainer.h', 'GridContainer/GridContainer/serialization/GridAxis.h', 'AlexandriaKernel/AlexandriaKernel/serialization/tuple.h'], [('member-wise archiving', 'serialize()')], ['gridExport()', 'gridImport()'])
prop('C23', 'An array written to a binary array file reads back equal',
     'Writing an array to the binary array format and reading it, whole or memory-mapped, gives an array of the same shape, attribute names and elements; a truncated file or one of another element type is refused.',
     ['inputs', 'crash_points'], 'all shapes, element types and truncation points', 'Tests round-trip two or three arrays.',
     ['NdArray/NdArray/io/Npy.h', 'NdArray/NdArray/io/_impl/Npy.icpp', 'NdArray/NdArray/io/_impl/NpyCommon.h', 'NdArray/NdArray/io/_impl/NpyMmap.icpp'], [('header parsing and writing', 'readNpyHeader, writeNpyHeader')], ['writeNpy()', 'readNpy()', 'mmapNpy()'])
prop('C24', 'Wildcard program options give exactly the instances that were entered',
     'Given a list of option names and the entries of a user, the instance names found are exactly the texts x for which some listed option o has an entry "o-x", each once, plus the empty text when an entry is a listed option itself; an entry that only begins with the letters of an option gives nothing. The name made for option o and instance x is "o-x".',
     ['inputs'], 'all lists of option names and all maps of entries', 'Tests use one fixed option vector.',
     ['Configuration/src/lib/ProgramOptionsHelper.cpp', 'Configuration/Configuration/ProgramOptionsHelper.h'], [('instances', 'findWildcardNames'), ('entry name', 'wildcard')], ['findWildcardNames()', 'wildcard()'])

TECH = 'contract-based deductive verification (cppvc: extracted clang AST of the real functions, path-wise VCs, z3/cvc5), counterexamples replayed on the real code'
sys.path.insert(0, V)
from props import PROPS, NOT_CLAIMED   # noqa: E402

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
checks = []
for p in P:
    if p['id'] in PROPS:
        checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'], 'technique': PROPS[p['id']].get('technique', TECH),
                       'level': PROPS[p['id']].get('level', 'proof'), 'level_note': PROPS[p['id']]['note']})
na = [{'property': p['id'], 'reason': NOT_CLAIMED.get(p['id'], 'not reached yet: no contract module for this part of the code')} for p in P if p['id'] not in PROPS]
m = {'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: /repo is only changed by fix: commits. See DESIGN.md.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
print(len(P), 'properties', len(checks), 'claimed')
