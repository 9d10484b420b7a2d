# Read by catalog.py.  prop(id, title, statement, over, text, why, files,
# mechanism, technique, note).
PBT = 'property-based testing: '

prop('C01', 'Dimension labels are identities',
     """Two dimension labels compare equal exactly if they were made from the same
     string, and a label always gives back the string it was made from. This holds
     for built-in and user-made labels, in any order of creation, for threads
     creating labels at the same time, and up to the point where a label is refused
     because too many exist, after which all earlier labels still work. Equal labels
     have equal hashes and the order on labels is a strict total order.""",
     ['inputs', 'histories', 'schedules'],
     """every sequence of label creations, every string, every interleaving of
     threads that create labels""",
     """The tests create a handful of labels in one thread; what one creation does to
     labels made earlier, or by another thread, depends on the whole history.""",
     ['lib/units/dim.cpp', 'lib/units/include/scipp/units/dim.h'],
     [('custom label table and its lock', 'lib/units/dim.cpp: Dim::Dim, Dim::name'),
      ('hash of a label', 'lib/units/include/scipp/units/dim.h: std::hash<Dim>')],
     PBT + 'histories of label creations against a map model, also with threads',
     'Thread interleavings are sampled by the operating system, not enumerated.')

prop('C02', 'Strided views visit exactly the elements they name, in order',
     """A view of a buffer with given dimensions, strides and offset visits, in
     row-major order of its dimensions, exactly the elements at offset plus the sum
     of index times stride, whether it is iterated forwards, stepped by any amount,
     indexed, compared, retargeted to other dimensions (broadcast, transposed or
     sliced) or read as one bin after the other. Two views over the same buffer are
     reported as overlapping whenever they share an element. More dimensions than
     can be held are refused.""",
     ['inputs'],
     """every shape (also empty and scalar), every strides/offset that slicing,
     transposing and broadcasting can make, every sequence of steps""",
     """Tests iterate a few 2-D and 3-D views with fixed strides; the dimension
     flattening and the carries between dimensions depend on how sizes and strides
     combine.""",
     ['lib/core/view_index.cpp', 'lib/core/element_array_view.cpp',
      'lib/core/include/scipp/core/view_index.h',
      'lib/core/include/scipp/core/element_array_view.h',
      'lib/core/include/scipp/core/bucket_array_view.h',
      'lib/common/include/scipp/common/index_composition.h', 'lib/core/strides.cpp'],
     [('flattening of dimensions, increment, set_index',
       'lib/core/include/scipp/core/view_index.h'),
      ('overlap from memory bounds', 'lib/core/element_array_view.cpp: overlaps'),
      ('index arithmetic',
       'lib/common/include/scipp/common/index_composition.h')],
     PBT + 'random layouts against direct index arithmetic')

prop('C03', 'Dimensions, sizes, slices and strides obey their algebra',
     """A set of labelled sizes behaves as an ordered list of unique labels under any
     sequence of adding, erasing, resizing, renaming, relabelling, merging,
     intersecting, reordering, folding, flattening, transposing, slicing and
     concatenating: the result is the one computed on such a list, the volume is
     the product of the sizes, and equality of plain sizes ignores order while
     equality of dimensions does not. An operation that has no valid result
     (duplicate label, missing label, negative size, conflicting sizes, slice out of
     range, ambiguous target) throws and changes nothing. Strides of a row-major
     layout are the products of the later sizes.""",
     ['inputs', 'histories'],
     'every sequence of operations on up to the maximal number of dimensions',
     """Tests check single operations on one or two dimensions; order, capacity and
     refusal after an arbitrary history are not sampled.""",
     ['lib/core/dimensions.cpp', 'lib/core/sizes.cpp', 'lib/core/slice.cpp',
      'lib/core/strides.cpp', 'lib/core/rename.h',
      'lib/core/include/scipp/core/sizes.h'],
     [('small stable map', 'lib/core/sizes.cpp: small_stable_map'),
      ('fold, flatten, merge, transpose', 'lib/core/dimensions.cpp'),
      ('slice parameters', 'lib/core/slice.cpp'),
      ('strides', 'lib/core/strides.cpp')],
     PBT + 'stateful histories against an ordered-list model')

prop('C04', 'Joint iteration pairs the elements that belong together',
     """Iterating several operands jointly over common dimensions, each operand with
     its own strides (transposed, sliced, broadcast), visits every index of the
     iteration space exactly once and gives, for every operand, the element at that
     index. If operands hold bins, iteration runs over the elements of every bin in
     order, skips empty bins wherever they are, and combines dense operands with
     every element of the bin they belong to; bins of different sizes in two
     operands are refused. Positioning at any index, and the begin and end of an
     empty or scalar space, agree with stepping.""",
     ['inputs'],
     """every number of operands, shape, stride combination, bin sizes and nesting of
     bins in slices""",
     """Tests use small regular shapes; skipping of empty bins and dimension
     flattening go wrong only for particular patterns of sizes and strides.""",
     ['lib/core/multi_index.cpp', 'lib/core/include/scipp/core/multi_index.h'],
     [('dimension flattening', 'lib/core/multi_index.cpp: flatten_dims'),
      ('bin iterators', 'lib/core/multi_index.cpp: BinIterator'),
      ('increment and set_index', 'lib/core/include/scipp/core/multi_index.h')],
     PBT + 'random strides and bin sizes against nested loops')

prop('C05', 'Uncertainties propagate to first order, operands independent',
     """Arithmetic, powers, roots, exponentials, logarithms, absolute value and dot
     products of quantities with variances return the value that the same operation
     gives without variances, and a variance that is the first-order (linear) error
     propagation with uncorrelated operands. An operand without variance counts as
     exact. Comparisons look at values only, and in-place operations give the same
     as out-of-place ones.""",
     ['inputs'],
     """every value and variance in float and double, including zero, negative and
     non-finite ones, and every mix of operands with and without variance""",
     """Tests compare a few hand-picked values; sign, operand order and special
     values in the variance formulas are not sampled.""",
     ['lib/core/include/scipp/core/value_and_variance.h'],
     [('operators and functions of ValueAndVariance',
       'lib/core/include/scipp/core/value_and_variance.h')],
     PBT + 'differential against derivatives in extended precision')

prop('C06', 'Element arithmetic follows its definition for every type',
     """For all integer and floating-point operand types, division is true division,
     floor division rounds towards negative infinity and the modulus has the sign of
     the divisor, with quotient times divisor plus modulus giving back the dividend;
     integer division by zero does not trap. Powers, midpoints, rounding and the
     classification of non-finite numbers agree with their mathematical definition.
     A sequence is reported as linearly spaced, or as a range of consecutive steps,
     exactly if it is.""",
     ['inputs'],
     'every pair of operands of int32, int64, float and double',
     """Tests use small positive and a few negative operands; extremes, mixed types
     and special values are left out.""",
     ['lib/common/include/scipp/common/numeric.h',
      'lib/core/include/scipp/core/element/arithmetic.h',
      'lib/core/include/scipp/core/element/math.h'],
     [('floor_divide, divide, mod', 'lib/core/include/scipp/core/element/arithmetic.h'),
      ('pow', 'lib/common/include/scipp/common/numeric.h: pow'),
      ('islinspace, isarange', 'lib/common/include/scipp/common/numeric.h')],
     PBT + 'differential against 128-bit integers and long double',
     'Signed overflow (undefined in the element type) is outside the domain.')

prop('C07', 'Element storage has value semantics and loses no element',
     """An array of elements behaves as a value under any sequence of construction,
     copy, move, assignment, resize and reset: a copy never shares memory, content
     is what was last stored, a moved-from array can be reused, and a null array
     stays distinct from an empty one. Pooled and aligned allocations never overlap
     while in use, keep their alignment, and can be used from several threads.
     Parallel loops call their body for every index exactly once and parallel sort
     gives the sorted permutation.""",
     ['inputs', 'histories', 'schedules'],
     """every operation history, element type, size (0, 1, many) and loop
     range/grain""",
     """Tests check one operation each; use after move, resize of shared sizes and
     allocation histories need sequences, and races need threads.""",
     ['lib/core/include/scipp/core/element_array.h',
      'lib/core/include/scipp/core/memory_pool.h',
      'lib/core/include/scipp/core/aligned_allocator.h',
      'lib/core/include/scipp/core/parallel-tbb.h',
      'lib/core/include/scipp/core/parallel-fallback.h'],
     [('element_array', 'lib/core/include/scipp/core/element_array.h'),
      ('memory pool', 'lib/core/include/scipp/core/memory_pool.h')],
     PBT + 'stateful histories against std::vector, under AddressSanitizer')

prop('C08', 'Spatial transforms act, compose and invert as maps of space',
     """Rotations, scalings or other linear maps, translations and affine maps,
     applied to a vector, act as the map of space they stand for, and a product of
     any two of them is the map that applies the right factor first and then the
     left. An inverse undoes its transform, equal transforms act equally, and the
     components (elements, quaternion and translation) used to build a transform can
     be read back. Cross, dot and norm of vectors obey their definitions.""",
     ['inputs'],
     'every transform of every kind and every product of two kinds',
     """Tests multiply fixed matrices, often commuting ones or the identity, so order
     and mixed products are barely covered.""",
     ['lib/core/include/scipp/core/spatial_transforms.h',
      'lib/core/include/scipp/core/eigen.h',
      'lib/core/include/scipp/core/element/geometric_operations.h'],
     [('operators of Quaternion and Translation',
       'lib/core/include/scipp/core/spatial_transforms.h')],
     PBT + 'metamorphic, (A*B)*v against A*(B*v), and 4x4 matrix model')

prop('C09', 'Dictionaries keep order, map each key once and notice changes',
     """Under any history of inserting, overwriting, erasing, extracting, clearing,
     copying and moving, a dictionary maps every key to the value stored last and
     iterates over keys, values and items in order of first insertion. A missing key
     is reported by an exception, and a duplicate key in an initial list is refused.
     Using an iterator after the number of items changed throws instead of reading
     stale memory, while overwriting a value keeps iterators usable.""",
     ['inputs', 'histories'],
     'every history of operations, key and value types (also move-only)',
     """Tests use two or three items and one operation; order and pairing of keys and
     values after erasing in the middle need histories.""",
     ['lib/core/include/scipp/core/dict.h', 'lib/core/dict.cpp'],
     [('parallel vectors of keys and values',
       'lib/core/include/scipp/core/dict.h: Dict'),
      ('detection of changed containers',
       'lib/core/include/scipp/core/dict.h: Iterator::expect_container_unchanged')],
     PBT + 'stateful histories against a vector of pairs, AddressSanitizer')

prop('C10', 'Every event lands in the one bin or group that encloses it',
     """For sorted bin edges, however spaced, an event is counted in (or assigned to,
     or given the value of) exactly the bin with lower edge <= coordinate < upper
     edge, and in none if there is no such bin or the coordinate is NaN; the faster
     path for evenly spaced edges gives the same result. Weights and variances are
     added per bin and unsorted edges are refused. Group labels select by equality,
     a repeated label is refused, and a lookup of the previous value gives the value
     at the last point that is not after the event, or the fill value.""",
     ['inputs'],
     """every list of edges (evenly spaced or not, repeated, near the floating-point
     resolution), every coordinate type and value including edges and their
     neighbours""",
     """Tests use edges like 0, 2, 4 and events well inside bins; rounding in the
     even-spacing shortcut shows only at edges of particular spacings.""",
     ['lib/core/include/scipp/core/histogram.h',
      'lib/core/include/scipp/core/element/histogram.h',
      'lib/core/include/scipp/core/element/bin.h',
      'lib/core/include/scipp/core/element/bin_detail.h',
      'lib/core/include/scipp/core/element/event_operations.h',
      'lib/common/include/scipp/common/numeric.h'],
     [('bin index for even spacing', 'lib/core/include/scipp/core/histogram.h: get_bin'),
      ('choice of the shortcut', 'lib/common/include/scipp/common/numeric.h: islinspace'),
      ('bin and group indices', 'lib/core/include/scipp/core/element/bin.h')],
     PBT + 'differential against a linear search')

prop('C11', 'Sorting events into bins keeps every event once and in order',
     """Given the target bin of every event, counting gives the number of events per
     bin and placing them fills every bin with exactly its events in their original
     order (with their variances), writes nothing else, and drops only events marked
     as outside, whichever strategy is chosen for the number of bins and events.
     Sparse rows of bin sizes (an offset plus a few sizes) give the same sums,
     differences, intersections and running totals as full-length arrays, and
     cumulative sums hold the sum of all earlier elements.""",
     ['inputs', 'histories'],
     """every number of bins and events, every assignment of events to bins, every
     offset and length of sparse rows""",
     """The chunked strategy starts at more than 512 bins with many events and tests
     compare few such sizes; rows in tests overlap in simple ways.""",
     ['lib/core/include/scipp/core/element/map_to_bins.h',
      'lib/core/include/scipp/core/element/bin.h', 'lib/core/subbin_sizes.cpp',
      'lib/core/include/scipp/core/element/cumulative.h'],
     [('chunked placement',
       'lib/core/include/scipp/core/element/map_to_bins.h: map_to_bins_chunkwise'),
      ('sparse rows', 'lib/core/subbin_sizes.cpp')],
     PBT + 'differential against lists per bin and dense arrays, AddressSanitizer')

prop('C12', 'Comparison, extremes, conversion, sorting and rebinning are exact',
     """Comparisons and closeness tests follow the mathematical definition for every
     mix of types; maximum and minimum return an element of the input with its own
     variance, propagating NaN or ignoring it as named; special values are detected
     and replaced exactly where they are, and sorting permutes values together with
     their variances. Unit conversion multiplies by the scale, exactly for integers
     and times by a whole factor, else rounded to nearest with halves away from zero
     and saturated. Rebinning gives every new bin the sum of the overlapping
     fractions of the old bins, for ascending and descending edges of any type.""",
     ['inputs'],
     """every operand of every supported element type, NaN and infinities at any
     place in a sequence, every pair of edge lists""",
     """Tests use small numbers in one order; loss of precision in 64-bit integers,
     position of NaN and partial overlaps need more inputs.""",
     ['lib/core/include/scipp/core/element/comparison.h',
      'lib/core/include/scipp/core/element/to_unit.h',
      'lib/core/include/scipp/core/element/sort.h',
      'lib/core/include/scipp/core/element/special_values.h',
      'lib/core/include/scipp/core/element/rebin.h',
      'lib/core/include/scipp/core/element/util.h',
      'lib/core/include/scipp/core/element/logical.h'],
     [('min/max', 'lib/core/include/scipp/core/element/comparison.h: nanmax_equals'),
      ('rounding and saturation', 'lib/core/include/scipp/core/element/to_unit.h'),
      ('overlap of bins', 'lib/core/include/scipp/core/element/rebin.h')],
     PBT + 'differential against 128-bit and long double definitions')

prop('C13', 'Units form an algebra and never mix silently',
     """Products, quotients, powers and square roots of units have the added,
     subtracted, multiplied and halved exponents, or the operation throws a unit
     error when the result cannot be represented; it never yields another unit.
     Addition, subtraction, minimum, maximum and comparison need equal units; the
     absent unit combines only with itself or as documented per function, angles go
     into trigonometric functions and come out of their inverses, and exponentials
     and logarithms need dimensionless input. Units equal each other iff exponents
     and scale do, and equal units have equal hashes.""",
     ['inputs'],
     """every pair of units from products of the supported base units, absent unit,
     and every integer power including those beyond 32 bits""",
     """Tests check single pairs; overflow of exponents and of the power's integer
     type needs extreme inputs.""",
     ['lib/units/unit.cpp', 'lib/units/include/scipp/units/unit.h'],
     [('powers and their overflow', 'lib/units/unit.cpp: pow'),
      ('products with the absent unit', 'lib/units/unit.cpp: operator*')],
     PBT + 'differential against a model of exponents')

prop('C14', 'Times, text and common types',
     """A time in hours, minutes, seconds, ms, us or ns prints as the ISO 8601 date and
     time it denotes, before and after 1970, with exactly the digits of its unit;
     times outside the range of years 1000 to 9999 print something and never crash.
     Times minus times are durations, times plus durations are times, in the 64-bit
     integers of the unit. The text of arrays shows all of up to four elements and
     else the first and last two, with every component of vectors, matrices and
     transforms in order; the text of dimensions lists each label with
     its length in order. The common type of two numeric
     types is that of C++ arithmetic, of equal types that type, and else an error.""",
     ['inputs'],
     """every 64-bit time point in every unit, array contents of any length, dimensions
     with any labels, all pairs of supported types""",
     """Tests format a few dates after 1970.""",
     ['lib/core/string.cpp', 'lib/core/include/scipp/core/time_point.h',
      'lib/core/dtype.cpp', 'lib/core/include/scipp/core/string.h'],
     [('formatting of time points', 'lib/core/string.cpp: to_iso_date'),
      ('text of arrays', 'lib/core/include/scipp/core/string.h: array_to_string'),
      ('common type', 'lib/core/dtype.cpp: common_type')],
     PBT + 'differential against a calendar model')

prop('C15', 'Element functions compute what they are named for, in the unit that follows',
     """Every function applied to elements (trigonometric, hyperbolic, exponential, roots, rounding, error functions, logic,
     choice, values and variances, position and components) gives for every double and float, special values included, the value of
     the function it is named for, within rounding. Its unit overload, for any units of its one to four operands, gives the unit that
     follows: products and quotients multiply and divide units, comparisons and tests give none, logic needs none, functions
     that compare, add, choose or look up need equal units of what they compare, add or choose between, and every other combination
     is refused with a unit error. The checks of preconditions (same, included or contained dimensions, number of dims, slices,
     lengths) throw exactly if the condition is not met, naming what was expected. Lists of events with variances insert, append,
     assign and clear values and variances together, or refuse.""",
     ['inputs'],
     """all units for each of up to four operands; all floating-point values; all pairs of dimensions of up to five labels""",
     """Tests try one or two units per function, mostly those that are accepted.""",
     ['lib/core/include/scipp/core/element/math.h', 'lib/core/include/scipp/core/element/trigonometry.h',
      'lib/core/include/scipp/core/element/hyperbolic.h', 'lib/core/include/scipp/core/element/logical.h',
      'lib/core/include/scipp/core/element/util.h', 'lib/core/include/scipp/core/element/arithmetic.h',
      'lib/core/include/scipp/core/element/comparison.h', 'lib/core/include/scipp/core/element/event_operations.h',
      'lib/core/include/scipp/core/element/special_values.h', 'lib/core/include/scipp/core/except.h', 'lib/core/except.cpp',
      'lib/core/include/scipp/core/values_and_variances.h', 'lib/core/include/scipp/core/transform_common.h'],
     [('units', 'lib/core/include/scipp/core/transform_common.h: dimensionless_unit_check_return'),
      ('functions', 'lib/core/include/scipp/core/element/math.h'),
      ('preconditions', 'lib/core/except.cpp: ndim_is, validSlice, includes')],
     PBT + 'differential against a table of unit rules and long double functions')

prop('C20', 'Elementwise operations act element by element, in any memory layout',
     """Applying an arithmetic, comparison, logical, mathematical, trigonometric or
     special-value operation to variables gives, at every index, what the same
     operation gives on the scalar operands at that index, in value, variance, unit
     and type: whether operands are contiguous, slices, strided, transposed,
     broadcast or of permuted or missing dimensions, and however many threads
     share the work. The result has the merged dimensions and memory of its own,
     operands are as before. The operation throws iff dimensions conflict, an
     operand with variances would be broadcast (comparisons and choices between
     elements excepted), or the scalar operation throws. Operands that are the same
     variable count as fully correlated. Vectors and spatial transforms (linear,
     affine, rotation, translation) act, compose and invert as the maps they are,
     translations only in the unit of what they shift; their components are views of
     them, and they are close iff all components are. Powers follow the rules for units
     (scalar integer exponents unless dimensionless) and for integers (no negative
     exponents).""",
     ['inputs', 'schedules'],
     """every operation with every combination of layouts, shapes, types, units,
     variances and special values of its operands""",
     """Tests apply each operation to one or two small contiguous arrays; iteration over
     combinations of layouts is where elements get mixed up.""",
     ['lib/variable/include/scipp/variable/transform.h', 'lib/variable/arithmetic.cpp',
      'lib/variable/pow.cpp', 'lib/variable/comparison.cpp', 'lib/core/multi_index.cpp',
      'lib/core/include/scipp/core/multi_index.h'],
     [('iteration in chunks', 'lib/variable/include/scipp/variable/transform.h: transform_elements'),
      ('broadcast of variances', 'lib/variable/include/scipp/variable/transform.h: bad_variance_broadcast'),
      ('correlation', 'lib/variable/arithmetic.cpp: correlated')],
     PBT + 'metamorphic relation with scalars, differential against plain arithmetic')

prop('C21', 'In-place operations write exactly their target',
     """An in-place operation, copy into a view, setSlice, fill or operation with output
     argument stores in its target what the out-of-place operation returns (converted
     to the type of the target), also if arguments are views of the same array that
     overlap the target, in which case they count with their values from before.
     Elements outside the target view and arguments are unchanged. A read-only
     target, a slice whose unit would change, an argument with dimensions, types or
     variances the target cannot take makes the operation throw, and then no element
     and no unit has changed.""",
     ['inputs', 'histories'],
     """every target view of a larger array, every argument including overlapping views
     of the target""",
     """Tests use separate contiguous arrays, rarely look at the elements next to a view
     and never at all overlaps.""",
     ['lib/variable/include/scipp/variable/transform.h', 'lib/variable/arithmetic.cpp',
      'lib/variable/variable.cpp', 'lib/core/include/scipp/core/element_array_view.h'],
     [('overlap of target and argument', 'lib/variable/include/scipp/variable/transform.h: overlaps'),
      ('unit of slices', 'lib/variable/variable.cpp: expect_can_set_unit'),
      ('checks of setSlice', 'lib/variable/variable.cpp: validateSlice')],
     PBT + 'differential against the out-of-place operation on copies')

prop('C22', 'Views share, copies do not, read-only variables are not written',
     """Slices, transposes, renamed, folded and broadcast variables and assigned variables
     refer to the elements of their source at the indices the operation defines: a
     write through one is seen by all others that contain the element and by nothing
     else. copy() has the same contents and shares nothing. Read-only variables
     (as_const, and broadcasts that repeat elements) and views of them refuse every
     write; units and variances can be changed only through variables that hold all
     elements and then change for all that share them; variances set from
     any view belong to the elements at the same index. The alignment flag belongs to
     the variable and is kept by views and copies. Variables are equal iff
     dimensions, unit, type, presence of variances and all elements are, in any
     layout, with NaN equal to NaN in equals_nan only.""",
     ['histories', 'inputs'],
     """every sequence of views, copies, assignments, moves and writes""",
     """Tests take one view of one array at a time; sharing shows in histories.""",
     ['lib/variable/variable.cpp', 'lib/variable/operations.cpp',
      'lib/variable/include/scipp/variable/element_array_variable.tcc'],
     [('views', 'lib/variable/variable.cpp: slice, transpose, fold, broadcast'),
      ('write protection', 'lib/variable/variable.cpp: expect_writable, is_slice'),
      ('equality', 'lib/variable/variable.cpp: compare')],
     PBT + 'stateful, model of buffers and index lists')

prop('C23', 'Changes of shape keep every element and put it in the defined place',
     """flatten, fold, transpose, squeeze, concat, broadcast, resize, rename of dimensions
     and the component views of structured variables produce arrays in which the
     element at each index is the element of the argument the operation defines
     (flatten and fold in row-major order of the dimensions, concat in the
     order of its arguments along the dimension), with variances, unit and type, for every
     layout of the argument. fold undoes flatten, slices of a concat are its
     arguments, and results have the dimension order documented. Wrong labels or
     sizes throw and leave arguments unchanged.""",
     ['inputs'],
     """every shape, layout and element type of the argument""",
     """Tests reshape contiguous double arrays of two or three dimensions; transposed,
     sliced and broadcast arguments, and types other than double, take different
     code.""",
     ['lib/variable/shape.cpp', 'lib/variable/variable.cpp', 'lib/variable/creation.cpp',
      'lib/core/dimensions.cpp', 'lib/core/strides.cpp',
      'lib/variable/include/scipp/variable/structure_array_model.h'],
     [('concat, fold, flatten', 'lib/variable/shape.cpp'),
      ('components', 'lib/variable/variable.cpp: elements'),
      ('dimensions after fold and flatten', 'lib/core/dimensions.cpp: fold, flatten')],
     PBT + 'reference model of arrays with index arithmetic')

prop('C24', 'Reductions and cumulative sums count every element exactly once',
     """sum, mean, min, max, all, any and their NaN-ignoring forms over one or all
     dimensions, the forms that accumulate into an output, and cumsum return for every
     output element what a plain loop over the elements at the reduced indices
     gives: each element counts once, for every layout, shape, size and
     number of threads. Variances add up in sums, means divide them by n squared,
     min and max return the variance of the element chosen; NaN propagates or is skipped
     as named; without elements the result is the neutral element; bools add up to
     int64, ints have a double mean, and float is summed in double precision.
     cumsum follows the dimension (or row-major order), inclusive or exclusive.""",
     ['inputs', 'schedules'],
     """every shape, layout, size and type of array; every split of the work over threads""",
     """Tests reduce arrays of a few elements, which never use threads, along one
     dimension of a contiguous array.""",
     ['lib/variable/reduction.cpp', 'lib/variable/cumulative.cpp',
      'lib/variable/include/scipp/variable/accumulate.h', 'lib/variable/operations_common.h',
      'lib/core/include/scipp/core/element/comparison.h',
      'lib/core/include/scipp/core/element/cumulative.h', 'lib/variable/creation.cpp'],
     [('work in chunks', 'lib/variable/include/scipp/variable/accumulate.h: do_accumulate'),
      ('reductions', 'lib/variable/reduction.cpp'),
      ('cumulative sums', 'lib/variable/cumulative.cpp: cumsum')],
     PBT + 'reference loop over indices')

prop('C25', 'Sorting, tests for order and spacing, and midpoints are right on every line',
     """For every line of elements along a dimension: issorted and allsorted are true iff
     neighbours are in the order asked for (equal ones are, NaN is not),
     sort returns the same elements (with their variances) in that order,
     islinspace is true iff at least two finite elements increase by equal steps, isarange iff
     steps are one, linspace starts and ends exactly at the given values and has
     equal steps, midpoints lie in the middle of neighbours without overflow, for
     integers and times rounded towards the first. Lines
     do not affect each other and arguments are not changed, in any memory layout.""",
     ['inputs'],
     """every array, layout and dimension, every line of values""",
     """Tests check a few one-dimensional arrays; higher dimensions, other layouts, single
     elements out of order anywhere in an array are left.""",
     ['lib/variable/util.cpp', 'lib/variable/sort.cpp', 'lib/variable/math.cpp',
      'lib/variable/subspan_view.cpp', 'lib/core/include/scipp/core/element/util.h',
      'lib/core/include/scipp/core/element/sort.h', 'lib/core/include/scipp/core/element/math.h',
      'lib/common/include/scipp/common/numeric.h'],
     [('order and spacing', 'lib/variable/util.cpp: issorted, islinspace, isarange, linspace'),
      ('lines as spans', 'lib/variable/subspan_view.cpp: make_indices'),
      ('midpoints', 'lib/core/include/scipp/core/element/math.h: midpoint')],
     PBT + 'definition of each operation on single lines')

prop('C26', 'Conversions of type and unit keep the quantity',
     """astype gives each element converted as the language defines, and its variance, to_unit
     gives each element times the ratio of the units and its variance times the
     square: exact up to rounding of floats, the nearest integer for integers and times
     (out of range the closest one of int32), so a conversion to a smaller unit and back is the identity.
     Affine transforms change only their translation. Dimensions and
     presence of variances stay, the argument is unchanged, and the result is the
     argument itself only if nothing had to be done and no copy was asked for.
     Units that do not fit, no unit, times in days or longer units and variances for
     types without throw.""",
     ['inputs'],
     """every pair of types and units, every value, every layout""",
     """Tests convert a few values between a few units; rounding and limits depend on the
     value and on each pair of units.""",
     ['lib/variable/astype.cpp', 'lib/variable/to_unit.cpp',
      'lib/core/include/scipp/core/element/to_unit.h', 'lib/core/dtype.cpp'],
     [('types', 'lib/variable/astype.cpp: MakeVariableWithType'),
      ('units', 'lib/variable/to_unit.cpp: to_unit'),
      ('rounding', 'lib/core/include/scipp/core/element/to_unit.h: safe_cast, round')],
     PBT + 'exact rational arithmetic, round trip')

prop('C30', 'Binned variables behave like one array per bin',
     """Every operation on binned variables does to each bin what it does to an array of
     the bin's elements: elementwise operations (with bins of equal sizes, or with the
     array element at the bin's index), in-place forms, copies into bins, reductions of
     bins, reductions over dimensions (which combine elements of all bins
     reduced), cumulative sums, slices, transposes, flatten, concat, broadcasts,
     copies and equality. This holds wherever bins are in the buffer: in any order,
     with gaps, empty, seen through any view. Elements of the buffer outside the
     bins operated on are not changed, bins that overlap or leave the
     buffer are refused, and bins of different sizes throw without changing
     anything.""",
     ['inputs', 'schedules'],
     """every placement of bins in the buffer, every layout and shape, all operations""",
     """Tests use two or three adjacent bins in order; the iteration over bins has separate
     code for each case of order, gaps, broadcasts and threads.""",
     ['lib/variable/bins.cpp', 'lib/variable/include/scipp/variable/bin_array_model.h',
      'lib/variable/include/scipp/variable/bin_array_variable.tcc',
      'lib/variable/bin_array_variable.cpp', 'lib/variable/variable_instantiate_bin_elements.cpp',
      'lib/variable/include/scipp/variable/transform.h', 'lib/core/multi_index.cpp',
      'lib/variable/shape.cpp', 'lib/variable/reduction.cpp', 'lib/variable/cumulative.cpp'],
     [('valid bins', 'lib/variable/variable_instantiate_bin_elements.cpp: expect_valid_bin_indices'),
      ('results with bins', 'lib/variable/include/scipp/variable/bin_array_variable.tcc: create'),
      ('iteration over bins', 'lib/core/multi_index.cpp')],
     PBT + 'metamorphic relation with dense arrays per bin')

prop('C40', 'Data arrays and datasets stay consistent through any history',
     """Coordinates, masks and attributes of a data array, and the coordinates and items of a
     dataset, always fit its sizes (equal lengths, or one more along one dimension for bin
     edges, or two for edges of a dimension sliced off); whatever does not fit is refused.
     Copies of the object have their own dictionaries but share the variables, views and items of a dataset
     share data and masks with it, copy() shares nothing. A slice has the sliced
     data, coordinates (edges with one element more; not aligned if a point was cut out of their dimension),
     masks and attributes, with read-only dictionaries, and a rename renames all of them, keeping the
     name. A dataset gives back for each key what was set last with the coordinates that apply.
     setSlice writes data and masks of the slice only. An operation that throws has changed
     nothing, and equality compares data, coordinates with their alignment, masks and
     attributes.""",
     ['histories', 'inputs'],
     """every sequence of operations on data arrays and datasets that share variables""",
     """Tests apply one operation to a fixed array; which of two objects sees a later
     change, and what a refused operation leaves behind, needs histories.""",
     ['lib/dataset/data_array.cpp', 'lib/dataset/dataset.cpp', 'lib/dataset/sized_dict.cpp',
      'lib/dataset/include/scipp/dataset/sized_dict.h', 'lib/dataset/operations.cpp',
      'lib/variable/variable.cpp'],
     [('what fits', 'lib/dataset/sized_dict.cpp: SizedDict::set'),
      ('slices of dictionaries', 'lib/dataset/include/scipp/dataset/sized_dict.h: slice_map'),
      ('items', 'lib/dataset/dataset.cpp: setData, operator[]')],
     PBT + 'stateful, model of shared buffers and dictionaries')

prop('C41', 'Operations match coordinates, unite masks and keep what applies',
     """An operation with two data arrays throws if a coordinate that is aligned in both differs
     (NaN equals NaN). Otherwise its result has every aligned coordinate of either, an unaligned one
     only if both have it and equal (or aligned in the other), the logical or of masks
     by name, the attributes that both have and are equal, no name, and the data that the operation
     on variables gives, matched by dimension label. With one data array the result keeps all
     of its metadata. In-place operations demand that aligned coordinates of the right
     operand are present, keep metadata of the left and unite masks into it; results share no masks with operands.
     Operations with datasets apply these rules to every item (of both, for two datasets), and
     in-place those of the right operand, also if it is part of the left. An operation
     that throws has changed nothing, not even a mask.""",
     ['inputs'],
     """every pair of data arrays, datasets or variables, with coordinates and masks present in one,
     both equal, both different, of different shapes, types and alignment""",
     """Tests use one coordinate and one mask at a time; which combination is refused,
     dropped or kept depends on presence, alignment, shape, NaN and order of all of them.""",
     ['lib/templates/dataset_binary.cpp.in', 'lib/templates/dataset_inplace.cpp.in',
      'lib/templates/dataset_unary.cpp.in', 'lib/dataset/arithmetic.cpp', 'lib/dataset/except.cpp',
      'lib/dataset/dataset.cpp', 'lib/dataset/sized_dict.cpp'],
     [('binary operations', 'lib/templates/dataset_binary.cpp.in'),
      ('in-place operations', 'lib/templates/dataset_inplace.cpp.in'),
      ('datasets', 'lib/dataset/arithmetic.cpp: apply_with_delay, apply_with_broadcast'),
      ('masks', 'lib/dataset/dataset.cpp: union_or, union_or_in_place'),
      ('coordinates', 'lib/dataset/except.cpp: coords_are_superset')],
     PBT + 'reference model of alignment and mask union over random metadata')

prop('C42', 'Changes of shape and selection by label carry all metadata along',
     """Slicing a data array by a value selects the point with that coordinate value (or the bin whose
     edges contain it, left edge included), by a range [begin, end) the points with
     values in it, or the bins that overlap it; ambiguous or missing values, unsorted or
     multi-dimensional coordinates, wrong units throw. concat, fold, flatten, transpose, squeeze,
     resize, extract and merge move each element of data, coordinates, masks and
     attributes to the place that the operation on the data implies: concat joins coordinates along
     the dimension, with bin edges joined at equal edges only, keeps others if equal and makes
     them depend on the dimension if not; flatten then fold gives back what was there; flatten
     repeats what does not depend on all flattened dimensions and drops nothing but edges that do not
     fit; extract keeps the slices where the condition holds; merge accepts items that are
     equal, NaN included, and refuses others. Shapes that do not fit throw.""",
     ['inputs'],
     """every data array and dataset: dimensions in any memory order, bin edges, metadata of fewer
     dimensions, NaN, zero lengths, variances, values on and between the labels""",
     """Tests use one-dimensional metadata of one kind; edges, missing dimensions,
     memory order and zero lengths interact for each dictionary entry.""",
     ['lib/dataset/shape.cpp', 'lib/dataset/slice.cpp', 'lib/dataset/extract.cpp', 'lib/core/slice.cpp', 'lib/dataset/operations.cpp',
      'lib/dataset/dataset.cpp', 'lib/dataset/sized_dict.cpp', 'lib/variable/shape.cpp',
      'lib/variable/slice.cpp', 'lib/core/dimensions.cpp', 'lib/core/multi_index.cpp'],
     [('concat, fold, flatten, resize', 'lib/dataset/shape.cpp'),
      ('values to positions', 'lib/variable/slice.cpp: get_slice_params'),
      ('extract', 'lib/dataset/extract.cpp'),
      ('merge', 'lib/dataset/operations.cpp: merge')],
     PBT + 'reference model of named multi-dimensional arrays with metadata')

prop('C43', 'Reductions of data arrays leave out masked elements',
     """A reduction of a data array (sum, mean, min, max, their nan-versions, all, any) along a
     dimension uses exactly the elements that no mask depending on this dimension covers: the
     result is that of reducing the other elements alone, in the order of dimensions of
     the data, with type, unit and variances of the reduction of a variable; a reduction of
     all dimensions leaves out what any mask with a dimension covers. Coordinates, attributes and masks that do not depend on the
     reduced dimension are kept, all others are dropped; kept masks are copies. For a dataset this holds for
     every item; an item without the dimension is refused. The input is unchanged.""",
     ['inputs'],
     """every data array, with masks of any subset of its dimensions in any order
     and memory layout, variances, NaN, all element types, zero lengths""",
     """Tests have one mask of one dimension; masks in other dimension order, several masks,
     and NaN or variances below a mask change the result only in combination.""",
     ['lib/dataset/variable_reduction.cpp', 'lib/templates/dataset_reduction.cpp.in', 'lib/dataset/mean.cpp',
      'lib/dataset/nanmean.cpp', 'lib/dataset/dataset_operations_common.h', 'lib/dataset/sized_dict.cpp',
      'lib/variable/reduction.cpp'],
     [('masked elements', 'lib/dataset/variable_reduction.cpp: reduce_impl, mean, nanmean'),
      ('which masks apply', 'lib/dataset/sized_dict.cpp: irreducible_mask'),
      ('metadata', 'lib/dataset/dataset_operations_common.h: apply_or_copy_dim_impl')],
     PBT + 'reference model: loop over unmasked elements')

prop('C44', 'Histogram and rebin count everything exactly where it belongs',
     """The histogram of points or of binned events is, for each bin [a, b), the sum of weights (and
     of variances) of exactly those with position in it, left edge included, right edge not; NaN, positions outside, and what is
     masked - by an event mask or a mask that depends on the histogrammed dimension - do not count. Binning that
     exists along the dimension is summed over. It does not depend on number of points, threads, memory layout,
     type of position and edges, or whether the edges are uniform. rebin gives each new bin
     the sum of old bins times the fraction of their width in it, for values and
     variances alike, in either direction of edges and any memory layout; masked
     bins count as zero. toDensity divides counts by the width of their bin along each named dim, fromDensity
     multiplies, other units stay. Name and metadata that do not depend on the dimension are kept, histogram and rebin
     replace the coordinate by the new edges; they throw for unsorted edges, wrong units or
     coordinates that are not of the needed kind (edges or points); the input is unchanged.""",
     ['inputs'],
     """every data array with positions and edges (of one or two dimensions, ascending or descending for
     rebin), masks, types, memory layouts, zero lengths, up to a million points""",
     """Tests use a handful of points and two layouts; which of several implementations runs
     depends on layout, uniformity, size and types, and they must agree everywhere.""",
     ['lib/dataset/histogram.cpp', 'lib/dataset/rebin.cpp', 'lib/variable/rebin.cpp', 'lib/dataset/bins.cpp',
      'lib/core/include/scipp/core/element/histogram.h', 'lib/core/include/scipp/core/element/rebin.h',
      'lib/core/include/scipp/core/histogram.h', 'lib/dataset/operations.cpp', 'lib/variable/subspan_view.cpp',
      'lib/dataset/bins_util.h', 'lib/common/include/scipp/common/numeric.h'],
     [('histogram', 'lib/dataset/histogram.cpp: histogram'),
      ('of binned data', 'lib/dataset/bins.cpp: buckets::histogram'),
      ('bin of a position', 'lib/core/include/scipp/core/histogram.h: get_bin'),
      ('rebin', 'lib/variable/rebin.cpp: rebin, rebin_non_inner'),
      ('rebin of contiguous lines', 'lib/core/include/scipp/core/element/rebin.h')],
     PBT + 'reference model: loops over bins and events')

prop('C45', 'Binning and grouping put every event into the right bin and lose none',
     """bin of a table or of binned data, by edges and groups, along new dimensions or existing ones,
     gives bins that hold exactly the events whose coordinates fall into the
     bin (left edge included, right edge not; equal to the group label): every event inside all
     edges is there once with all its weights, variances, coordinates, masks and
     attributes, every other is not. Existing dimensions that are not binned again keep their positions; erased ones are
     joined. Event coordinates decide where they exist, bin coordinates
     (not edges) otherwise; coordinates of the input bins that are sorted edges, or edges that are a linear space, or
     many bins never change the result. Events in bins masked along a
     changed dimension are left out. Event coordinates used for grouping are dropped, metadata of
     other dimensions is kept, edges and groups become coordinates. Concatenation of
     bins along a dimension joins them. The input is unchanged.""",
     ['inputs'],
     """every table and binned array (any memory layout of bins and columns, empty bins, 0 to 2 dimensions), event and
     bin coordinates of any order and unit, any number, order and type of edges and groups, 2-D edges, masks, NaN,
     many events and bins""",
     """Tests have sorted 1-D edges of one or two dimensions; the shortcuts taken for existing edges, linear
     edges, contiguous groups, and many bins are right only under conditions on all dimensions together.""",
     ['lib/dataset/bin.cpp', 'lib/dataset/bin_detail.cpp', 'lib/variable/bin_detail.cpp', 'lib/dataset/bins_util.h',
      'lib/core/include/scipp/core/element/bin.h', 'lib/core/include/scipp/core/element/bin_detail.h',
      'lib/core/include/scipp/core/element/map_to_bins.h', 'lib/core/subbin_sizes.cpp', 'lib/core/include/scipp/core/histogram.h', 'lib/dataset/bins.cpp'],
     [('target bins', 'lib/dataset/bin.cpp: TargetBinBuilder::build'),
      ('moving events', 'lib/dataset/bin.cpp: SingleStageMapper, TwoStageMapper'),
      ('metadata', 'lib/dataset/bin.cpp: add_metadata')],
     PBT + 'multiset of the events of each bin from the definition')

prop('C46', 'Groupby reduces each group on its own; sort moves whole slices',
     """groupby(data, key[, bins]) forms one group per distinct key in ascending order (all NaN are one
     group, the last) or one per bin (left edge included, right edge not), and sum, mean, min, max, all, any and their
     NaN-aware variants reduce each group to what the reduction of the concatenated unmasked
     slices of the group gives, for data arrays, all events of binned ones, and for each item of a dataset; concat of binned data joins exactly the events of the
     bins of each group, without those in bins masked along the reduced dimension. Groups or bins become the coordinate
     of the new dimension; metadata not depending on the reduced dimension is kept. sort
     by a variable or coordinate permutes slices of data, coordinates, masks and attributes by one common permutation
     that puts the key in ascending or descending order with NaN at the end, and drops bin edges of the sorted dimension.
     Keys of the wrong shape are refused, the input is unchanged.""",
     ['inputs'],
     """every data array of 1 to 3 dimensions (any memory layout) and binned array, every key with any
     order and number of repetitions, NaN and infinities, 7 types of keys, key as coordinate, attribute or variable, any name of the new
     dimension, any masks and metadata, 4 to 10 operations""",
     """Tests group a handful of arrays with one mask; grouping merges runs of equal keys into slices and reduces them
     in parallel, and the result depends on the order of keys, on masks of several dimensions and on names.""",
     ['lib/dataset/groupby.cpp', 'lib/dataset/sort.cpp', 'lib/dataset/bin.cpp',
      'lib/dataset/include/scipp/dataset/groupby.h', 'lib/dataset/include/scipp/dataset/sort.h'],
     [('groups', 'lib/dataset/groupby.cpp: MakeGroups, MakeBinGroups'),
      ('concat of bins', 'lib/dataset/bin.cpp: groupby_concat_bins'),
      ('sort', 'lib/dataset/sort.cpp: sort')],
     PBT + 'reference reduction of each group; permutation recovered from an identifying coordinate')

prop('C47', 'Binned data arrays act event by event and keep the columns of events',
     """Arithmetic, abs, negation and conversion of binned data arrays, alone, with arrays of the bins' dims or in
     place, change the weight (variance, unit) of each event as the operation would outside of bins and leave
     coordinates, attributes and masks of events as they are. Reductions of each bin, over a dim or everything, cover
     exactly the events that are neither masked themselves nor in a bin masked along that dim; mean counts events. Slices, concat, copy,
     transpose, selection by condition, concatenation and append of bins give each bin exactly its events, with all their
     columns; bins whose columns or units differ are refused. lookup_previous and map give each
     event the value of the function at its coordinate (the fill value outside or where masked), scale multiplies with it
     (0 there). Columns accessed, set, erased or extracted through the view of bins are those of the events. Operands
     are unchanged and the result has columns of its own.""",
     ['inputs'],
     """every binned data array of up to 3 dims, bins of any order, size and gaps, any slice or transpose of a larger
     one, tables with columns of several types, units and variances and several masks, operands and functions of any
     memory layout, 6 types of coordinates, sequences of up to 6 changes of columns""",
     """Tests use a few compact 1-D bins; the table behind bins may have gaps, a different order, strides and masks, and
     each operation handles indices and each column on its own.""",
     ['lib/dataset/bins.cpp', 'lib/dataset/variable_reduction.cpp', 'lib/variable/bins.cpp',
      'lib/variable/bin_array_variable.cpp', 'lib/dataset/include/scipp/dataset/bins_view.h',
      'lib/variable/include/scipp/variable/bin_array_model.h', 'lib/core/include/scipp/core/element/event_operations.h'],
     [('operations of events', 'lib/variable/include/scipp/variable/transform.h: transform of bucket types'),
      ('masks of events', 'lib/dataset/variable_reduction.cpp: mean, sum with masks'),
      ('join', 'lib/dataset/bins.cpp: buckets::concatenate, append'),
      ('lookup', 'lib/dataset/bins.cpp: lookup_previous, buckets::map, buckets::scale'),
      ('columns', 'lib/dataset/include/scipp/dataset/bins_view.h')],
     PBT + 'reference table per bin: every bin as a list of events with all columns')

prop('C50', 'transform_coords computes exactly what the graph of rules says',
     """transform_coords adds the target coordinates given by composing the functions and aliases of the graph,
     starting from existing coordinates, which are never recomputed. Only needed rules run, each once for the
     array's own coordinates and once for event coordinates where inputs are given per event. Targets are
     aligned, other used coordinates unaligned; used inputs, intermediate results and aliases are kept or removed as the
     keep_* options say; unrelated coordinates stay. A dimension takes the name of the last coordinate with the full
     contribution of only that dimension coordinate (ADR 0011). The result does not depend on the order of graph and targets or on
     slicing of the bins, datasets are transformed item by item, the input is never modified, and graphs that are
     cyclic, ambiguous, incomplete or have wrong functions are refused.""",
     ['inputs'],
     """every graph of functions with one or more outputs and aliases, of any shape (diamonds, chains, by-products), every
     choice of dense, event and bin coordinates, targets and options""",
     """Tests use a dozen hand-made graphs; what is needed, kept or renamed depends on the shape of the whole graph and
     on the order in which it happens to be visited.""",
     ['src/scipp/coords/transform_coords.py', 'src/scipp/coords/graph.py', 'src/scipp/coords/rule.py',
      'src/scipp/coords/coord_table.py', 'src/scipp/coords/coord.py'],
     [('choice of rules', 'src/scipp/coords/graph.py: graph_for, rule_sequence'),
      ('evaluation', 'src/scipp/coords/rule.py: ComputeRule'),
      ('usage counts', 'src/scipp/coords/coord_table.py: CoordTable'),
      ('names of dims', 'src/scipp/coords/transform_coords.py: _color_dims, _dim_name_changes')],
     PBT + 'random graphs on symbolic coordinates against a reference evaluation',
     'The Python code runs on stand-ins of the compiled classes (harness/python/stub.py).')

prop('C51', 'Operations of a DataGroup act on exactly the items they concern',
     """A DataGroup is an ordered mapping from strings to items whose dims and sizes are the union of those of its items
     (no size where they differ). Indexing affects the items that have the dimension and leaves the others; methods and
     overloaded functions are applied to each item with the same arguments; reductions, squeeze, flatten, fold and
     transpose act on each item over those of the given dimensions that it has, and on no other; binary
     operations combine items of equal name and keep the names common to all operands. All of this holds recursively in nested
     groups, never modifies the operands, and in-place arithmetic is refused.""",
     ['inputs', 'histories'],
     """every group of variables, arrays, datasets, binned data, other objects and nested groups with any dims; every
     operation and argument; every sequence of changes of a group""",
     """Tests apply each operation to one small group; which items are affected depends on the mix of kinds and dims of
     the items and on nesting.""",
     ['src/scipp/core/data_group.py'],
     [('indexing', 'src/scipp/core/data_group.py: DataGroup.__getitem__'),
      ('reductions', 'src/scipp/core/data_group.py: DataGroup._reduce'),
      ('operations', 'src/scipp/core/data_group.py: data_group_nary')],
     PBT + 'random groups of symbolic items against a reference model',
     'The Python code runs on stand-ins of the compiled classes (harness/python/stub.py).')

prop('C52', 'bin, group and hist in Python account for every event exactly once',
     """hist, nanhist, bin and group of tables and binned data (by event or bin coords, by edges, number of bins, width,
     or groups, several at once) put each event into the output bin given by its coords, exactly once, and sum its weight
     and variance there if histogramming; events that are masked by a mask of a reduced dim, NaN, or outside the
     edges are left out, other masks are kept. Exactly the dims given by dim (default: the dims of the coords used) are
     summed over, all others stay. Automatic edges are sorted, as many as asked, and include every
     element, the maximum too; automatic groups are the sorted unique values. bins.concat joins whole bins over the
     given dims and selection of events by label keeps exactly those in the half-open interval or with the value. Datasets
     and variables follow the same rules per item. The input is not modified.""",
     ['inputs', 'histories'],
     """every table and binned data array with any bins, coords, dtypes, masks; every combination of edges, counts,
     widths, groups and dims; every sequence of such operations""",
     """Tests compare sizes and a few sums on uniform random tables; which of several code paths runs depends on where each coord
     lives, on masks and on dim, and lost events show only for values on edges, large offsets, datetimes, or ranges that
     differ per item.""",
     ['src/scipp/core/binning.py', 'src/scipp/core/bin_remapping.py', 'src/scipp/core/bins.py', 'lib/dataset/bin.cpp',
      'lib/dataset/histogram.cpp', 'lib/python/bins.cpp'],
     [('automatic edges', 'src/scipp/core/binning.py: _parse_coords_arg, _upper_bound, _get_coord'),
      ('choice of path', 'src/scipp/core/binning.py: make_binned, make_histogrammed'),
      ('whole bins', 'src/scipp/core/bin_remapping.py: combine_bins, hide_masked'),
      ('selection', 'src/scipp/core/bins.py: Bins.__getitem__')],
     PBT + 'random event data and histories of operations against a list of events',
     'The bindings in lib/python are compiled against a stand-in for pybind11 (shim/pybind11).')

prop('C53', 'Indexing and assignment in Python touch exactly the elements named',
     """Indexing of variables, data arrays, datasets and binned data by numbers, ranges (any step), lists, boolean conditions
     and ellipsis selects exactly the elements the index names, in order, of all that has the dim (of edges: the bins'
     edges), or raises. A label selects the element equal to it, or the bin [a,b) that contains it; an interval all elements in
     the half-open range, or all bins that overlap with it; units and dtypes must fit. Assignment changes
     exactly what selection by the same index reads to exactly the given values, or fails and leaves all unchanged; slices are
     views, lists and conditions are copies, and sources that share memory with the target act as if copied first. A lookup
     table gives the value of the bin that contains a point, of the point before, or of the nearest point, and scales
     each event by it.""",
     ['inputs', 'histories'],
     """every variable, data array, dataset and binned data array with any coords, edges and masks; every index and label,
     valid or not; every sequence of selections and writes; every function and event table""",
     """Tests index small arrays with chosen numbers; which elements are read or written depends on order of dims, strides,
     sign and step of ranges, sort order of the coord, values on edges, and on how memory overlaps.""",
     ['lib/python/bind_slice_methods.h', 'lib/python/numpy.h', 'lib/dataset/slice.cpp', 'src/scipp/core/bins.py',
      'lib/python/bins.cpp', 'lib/dataset/map_view.cpp', 'lib/dataset/bins.cpp'],
     [('indexing', 'lib/python/bind_slice_methods.h: slicer'),
      ('labels', 'lib/dataset/slice.cpp: get_slice_params'),
      ('assignment', 'lib/python/numpy.h: copy_array_into_view'),
      ('lookup', 'src/scipp/core/bins.py: lookup, Lookup')],
     PBT + 'random indices, labels and histories of writes against numpy arrays and lists',
     'The bindings in lib/python are compiled against a stand-in for pybind11 (shim/pybind11).')

prop('C54', 'Data put into scipp from Python comes out unchanged, and views are views',
     """A variable made from arrays, lists or scalars has exactly the elements, variances, dims, dtype and unit given (converted
     as numpy does, whatever the memory layout) and is a copy; data that does not fit is refused. zeros, ones, full, empty,
     their likes, linspace, geomspace, logspace and arange give the elements, dtype and unit asked for. Datetimes keep the
     instant. Arrays obtained from a variable, slice, transpose or broadcast refer to its memory, write through
     unless read-only, and stay valid when the variable is gone; setting values, variances or fields changes those and
     nothing else. from_dict(to_dict(x)) is x, alignment and names included; deep copies share nothing, shallow
     copies share all elements but no dict.""",
     ['inputs'],
     """every array of any dtype, shape, byte order and strides; every scalar, vector, matrix, rotation, datetime; every variable,
     data array and dataset; every combination of unit, dtype and variances""",
     """Tests use contiguous arrays of one or two dtypes; conversions differ by dtype, layout, number of dims, emptiness, and dangling
     views show only once memory is reused.""",
     ['lib/python/numpy.h', 'lib/python/bind_data_access.h', 'lib/python/variable_init.cpp',
      'lib/python/element_array_view.cpp', 'src/scipp/core/variable.py', 'src/scipp/core/like.py', 'src/scipp/compat/dict.py',
      'src/scipp/spatial/__init__.py'],
     [('conversion', 'lib/python/numpy.h: copy_elements, copy_array_into_view'),
      ('views', 'lib/python/bind_data_access.h: get_py_array_t'),
      ('construction', 'lib/python/variable_init.cpp: bind_init'),
      ('dicts', 'src/scipp/compat/dict.py')],
     PBT + 'random data in random memory layouts against numpy, and round trips',
     'The bindings in lib/python are compiled against a stand-in for pybind11 (shim/pybind11).')

prop('C55', 'Operators, functions and reductions called from Python compute what they define',
     """Called from Python, +, -, *, /, //, %, ** (also in place and reflected, with arrays, variables and numbers), comparisons,
     isclose/allclose, logic, the elementwise functions, reductions (sum, mean, min, max, median, var, std, all, any and nan
     variants, as function, method and over lists), cumsum, sort/issorted/allsorted, concat, fold, flatten, squeeze, transpose,
     broadcast, to and to_unit give, whatever the order of dims, memory layout and dtype, the values, unit, dims and (for
     uncorrelated inputs) variances of the definition, with numpy's value per element. Masked elements do not contribute
     to reductions over a dim of the mask; other masks and coords independent of reduced dims stay. In-place forms change the
     left operand only, to what the plain form gives, or are refused and change nothing; inputs are not modified.""",
     ['inputs'],
     """every variable and data array of any dtype, unit, layout and size, with special values, variances, masks and coords; plain
     numbers and numpy scalars; every choice of dims and options""",
     """Tests of the Python layer mostly check that a function is bound; which overload, argument order, default, unit, mask or
     dtype is used shows only when results are compared with the definition over all forms.""",
     ['lib/python/bind_operators.h', 'lib/python/reduction.cpp', 'lib/python/shape.cpp', 'src/scipp/core/reduction.py',
      'src/scipp/core/math.py', 'src/scipp/core/shape.py', 'src/scipp/core/operations.py', 'src/scipp/core/arithmetic.py',
      'src/scipp/core/comparison.py', 'src/scipp/core/unary.py'],
     [('operators', 'lib/python/bind_operators.h: bind_binary, bind_in_place_binary'),
      ('reductions', 'src/scipp/core/reduction.py: sum, mean, median, var, std'),
      ('shape operations', 'src/scipp/core/shape.py: fold, flatten, concat, squeeze'),
      ('conversion', 'src/scipp/core/operations.py: to')],
     PBT + 'random operands against numpy with rules for units, dims, masks and propagated variances',
     'The bindings in lib/python are compiled against a stand-in for pybind11 (shim/pybind11).')

prop('C56', 'Coords, masks and datasets are dicts whose values always fit the data',
     """Through any history of set, delete, pop, popitem, update, clear, set_aligned, assign_coords, assign_masks, drop_coords,
     drop_masks, rename, rename_dims, merge, new data and copies from Python, the coords and masks of a data array and the
     items, coords and masks of a dataset are exactly those an ordered dict would hold: keys, order, values, get, in, len, keys,
     values and items agree. What does not fit the sizes of the data (up to bin edges) is refused, and the refused set or delete
     of an item changes nothing; a missing key raises KeyError. Functions that return a new object leave the old one as it was, whatever is
     done to the new one; deep copies share no memory, other operations share that of data, coords and masks; the dicts of a slice
     cannot be changed. rename renames coords of events too.""",
     ['histories'],
     """every history of such calls on data arrays and datasets of any sizes, with fitting and misfitting values, edges, clashing
     names and missing keys""",
     """Tests make one change to one small object; aliasing between copies, half-done updates after a failure and stale keys
     show only after a sequence of changes.""",
     ['lib/python/bind_data_array.h', 'lib/python/dataset.cpp', 'lib/dataset/sized_dict.cpp', 'lib/dataset/dataset.cpp',
      'lib/dataset/data_array.cpp', 'src/scipp/core/assignments.py', 'src/scipp/core/dimensions.py', 'src/scipp/core/bins.py'],
     [('dicts', 'lib/python/bind_data_array.h: bind_mutable_view, bind_pop, bind_dict_update'),
      ('fit', 'lib/dataset/sized_dict.cpp: SizedDict::set'),
      ('items', 'lib/dataset/dataset.cpp: Dataset::setData'),
      ('renaming', 'src/scipp/core/dimensions.py: _rename_variable, _rename_data_array')],
     PBT + 'random histories of changes against a model made of Python dicts',
     'The bindings in lib/python are compiled against a stand-in for pybind11 (shim/pybind11).')

STUB = 'The bindings in lib/python are compiled against a stand-in for pybind11 (shim/pybind11)'
prop('C57', 'Objects saved to HDF5 and loaded again are what was saved',
     """What to_hdf5/save_hdf5 write and load_hdf5 reads (to files, open groups and, with serialize and deserialize, lists of byte
     frames) is what was saved: variables of every supported dtype, 0-D or with dims of size 0, in any memory layout, with or without unit and
     variances; binned data whose bins are in any order, have gaps, overlap or are shared; data arrays and datasets with coords,
     alignment, masks and any names; data groups nested to any depth with scipp objects, numbers, strings and numpy arrays. Values
     agree bit by bit, as do dtypes, units, dims and order; what cannot be saved is left out with a warning or refused, without
     disturbing the rest. Saving changes neither the object nor its neighbours in the file.""",
     ['inputs'],
     """every object that can be built of the supported types, of any layout, size, unit, nesting and names, one or several per
     file""",
     """Tests save a fixed list of small objects; broadcast or overlapping bins, empty dims, odd names, nested groups and
     layouts that are not contiguous take branches that none of them reaches.""",
     ['src/scipp/io/hdf5.py', 'src/scipp/serialization.py'],
     [('variables', 'src/scipp/io/hdf5.py: _VariableIO, _NumpyDataIO, _StringDataIO'),
      ('bins', 'src/scipp/io/hdf5.py: _BinDataIO, _bins_overlap'),
      ('groups', 'src/scipp/io/hdf5.py: _DataGroupIO, _DatasetIO'),
      ('frames', 'src/scipp/serialization.py: serialize, deserialize')],
     PBT + 'random objects compared bit by bit with what is loaded after saving them',
     STUB + '; h5py is not installed, the files are kept by a stand-in for it (harness/python/h5py_stub.py) with the documented '
     'behaviour of groups, datasets and attributes.')

prop('C58', 'Functions of scipy act on labelled data as on bare arrays along the named dim',
     """trapezoid, simpson, interp1d (all kinds, extrapolation, given fill values),
     the filters of ndimage (size, sigma, footprint and origin by dim name, as number or quantity of a regular coord),
     butter/sosfiltfilt and curve_fit (several independent variables, parameters with units, start values and bounds, arrays of fits over the
     remaining dims, masks) give what scipy gives for the bare arrays along the named dim, whatever the order and memory layout
     of dims, with the units that follow and the coords, masks and dims that remain valid. Wrong units, coords that are not regular or
     sorted where needed, variances and masks where unsupported are refused. Inputs stay as they were.""",
     ['inputs'],
     """all data arrays of 1-3 dims with int or float values and coords, masks along any dims, every choice of dim, kind and
     option""",
     """Tests try one or two arrays with dims in their natural order; which axis an argument belongs to, units of parameters, integer data
     and masks along other dims show only in combination.""",
     ['src/scipp/scipy/integrate/__init__.py', 'src/scipp/scipy/interpolate/__init__.py', 'src/scipp/scipy/ndimage/__init__.py',
      'src/scipp/scipy/signal/__init__.py', 'src/scipp/scipy/optimize/__init__.py', 'src/scipp/curve_fit.py',
      'src/scipp/compat/wrapping.py'],
     [('interpolation', 'src/scipp/scipy/interpolate/__init__.py: interp1d'),
      ('filters', 'src/scipp/scipy/ndimage/__init__.py: _ndfilter'),
      ('fits', 'src/scipp/curve_fit.py: curve_fit')],
     PBT + 'random labelled data against scipy applied to the bare arrays',
     STUB + '; scipy itself is taken as given.')

prop('C59', 'Groupby, rebin and densities combine exactly the elements that belong together',
     """groupby(...).op(dim), with labels of any dtype or with edges, reduces every group as if its slices had been selected and
     reduced on their own, in order of the sorted labels; without members sums are 0; concat of binned data collects the events in order.
     rebin spreads every bin over new ones (given as edges, count or width, for several dims at once, ascending or descending) in proportion to
     the overlap, so that full coverage conserves the sum; counts_to_density and density_to_counts divide and multiply by the widths
     and are inverses; masks along a rebinned dim are applied first; merge_equal_adjacent joins exactly neighbouring bins of equal value. Variances, units, coords and masks
     that remain valid follow; inputs stay as they were.""",
     ['inputs'],
     """data arrays and datasets of 1-3 dims in any order and layout, labels of all dtypes with any repetition, masks and
     coords along any dims, any edges""",
     """Tests use one short array with two or three groups; groups not contiguous, empty groups, masks, other dims before or after
     the grouped one and several rebinned dims multiply to more cases than they list.""",
     ['lib/python/groupby.cpp', 'lib/dataset/groupby.cpp', 'lib/dataset/rebin.cpp', 'src/scipp/core/groupby.py',
      'src/scipp/core/binning.py', 'src/scipp/core/domains.py', 'src/scipp/core/operations.py'],
     [('groups', 'lib/dataset/groupby.cpp: GroupBy'), ('rebin', 'src/scipp/core/binning.py: rebin'),
      ('densities', 'lib/python/counts.cpp: counts_to_density')],
     PBT + 'random data against the reduction of selected slices, and against overlaps computed with numpy',
     STUB + '.')

prop('C60', 'identical and the assert functions tell objects apart exactly if they differ',
     """sc.identical(a, b, equal_nan) of variables (dense and binned), data arrays, datasets and data groups is True exactly if
     dims and their order, sizes, unit, dtype, values, variances (and whether there are any), events of every bin, coords, their alignment,
     masks and items agree, whatever memory layout, buffer order or order of dict keys; without equal_nan NaN equals nothing.
     assert_identical raises AssertionError exactly if identical(a, b, equal_nan=True) is False, and assert_allclose exactly if an element
     (or variance) differs by more than atol + rtol * |b|, or anything else differs; neither fails otherwise.""",
     ['inputs'],
     """all objects of every dtype, layout and size, and all changes of one property of a copy at any depth""",
     """Everyone's tests rest on these functions; their own tests list a few differences, while a difference they do not look at
     lets every other test pass.""",
     ['src/scipp/testing/assertions.py', 'src/scipp/core/comparison.py', 'src/scipp/core/data_group.py',
      'lib/variable/comparison.cpp', 'lib/dataset/dataset.cpp', 'lib/dataset/sized_dict.cpp', 'lib/python/comparison.cpp'],
     [('assertions', 'src/scipp/testing/assertions.py: assert_identical, assert_allclose'),
      ('identical', 'src/scipp/core/comparison.py: identical')],
     PBT + 'random objects and copies with one known change against the verdict of the functions',
     STUB + '.')

prop('C61', 'Every object can be shown, and what is shown is what it holds',
     """str, repr, format, make_html, make_svg and table can be made of every variable, data array, dataset and data group (whatever
     its dtype, nesting, bins, size or names), leave it as it is, and give well formed, escaped markup. HTML lists
     exactly the dims, coords, masks and items with dims, bin-edge and alignment marks, dtype, unit and a preview of the values; tables have a
     column for each coord, item and mask and a row for each element; drawings name every part and draw the outside
     of each array. format(v, '[<>^][#n][:spec]') shows the requested elements, format(v, 'c') rounds value and error to the
     digits the error allows. collapse and slices return every slice under its own index; isnear compares data and coords.""",
     ['inputs'],
     """all objects that C57 builds, and data arrays and datasets with names that look like markup, up to 4 dims, also empty""",
     """Tests only check that a few objects can be shown at all; objects of other dtypes, sizes and nesting raised errors, and
     output is never compared with what was to be shown.""",
     ['src/scipp/format/formatter.py', 'src/scipp/format/_parse.py', 'src/scipp/visualization/formatting_html.py',
      'src/scipp/visualization/formatting_datagroup_html.py', 'src/scipp/visualization/table.py',
      'src/scipp/visualization/show.py', 'src/scipp/utils/collapse_and_slices.py', 'src/scipp/utils/comparison.py',
      'lib/variable/string.cpp', 'lib/dataset/string.cpp'],
     [('formats', 'src/scipp/format/formatter.py: format_variable'),
      ('html', 'src/scipp/visualization/formatting_html.py: summarize_variable'),
      ('tables', 'src/scipp/visualization/table.py: table'), ('drawings', 'src/scipp/visualization/show.py: make_svg')],
     PBT + 'random objects; the markup is parsed and compared with a model of what is to be shown',
     'The bindings in lib/python are compiled against a stand-in for pybind11 (shim/pybind11); IPython is not installed, its '
     'class HTML is replaced by one that keeps its argument. Positions in drawings are not asserted.')

prop('C62', 'Own element functions, reductions of lists, unit aliases and constants',
     """elemwise_func(f)(*args) is f applied to each element, with dimensions matched by name whatever their order or memory layout, and
     f (or unit_func) applied to the units; other dtypes are converted or refused, variances and mismatched sizes refused,
     arguments stay as they are. reduce(items).op() is op over the elements of all items, leaving out masked ones (masks
     shared by all items stay masks, equal coords stay), and reduce(items).bins.concat() has the events of all items, bin by bin and in
     order. units.aliases behaves as a dict from names to units: exactly what it holds is used to read and write units,
     a second alias of a unit is refused without effect, and scoped aliases end with their scope, however it is left,
     restoring those they replaced. Physical constants have the value, unit and uncertainty of the CODATA table and are read-only.""",
     ['inputs', 'histories'],
     """1 to 4 arguments of up to 3 dims; up to 4 items with or without masks; sequences of up to 6 changes of aliases, with nested
     scopes left in any way; all constants whose unit the stand-in for the library of units knows""",
     """Tests apply a few functions to one or two fixed variables and use aliases once per test; aliases stayed after a scope
     that ended with an exception.""",
     ['src/scipp/operations.py', 'src/scipp/reduction.py', 'src/scipp/units/__init__.py', 'src/scipp/constants/__init__.py',
      'lib/python/transform.cpp'],
     [('elementwise', 'src/scipp/operations.py: elemwise_func'), ('reductions', 'src/scipp/reduction.py: Reducer'),
      ('aliases', 'src/scipp/units/__init__.py: UnitAliases'),
      ('constants', 'src/scipp/constants/__init__.py: physical_constants')],
     PBT + 'random functions, items and histories of aliases against models written with NumPy and dict',
     'numba is not installed: functions are compiled by gcc when the check starts, and handed over by a stand-in for numba.cfunc. '
     'The bindings are compiled against a stand-in for pybind11, units against one for LLNL-Units.')

NOT_APPLICABLE = []
NOTES = ('scipp is compiled from /repo\'s working tree with a stand-in for the '
         'LLNL-Units library, which is not installed here (see DESIGN.md).')
