T_IN = "Existing tests run a few fixed or random arrays; the claim is over every element value, every array length residue (vector body and tail) and every argument mode."
prop('C01', 'Two-input arithmetic is elementwise, position independent and wraps exactly',
     'For add, subtract, multiply, min, max, floor-divide, modulus and the bitwise operators on same-typed numeric arrays, output element i is the scalar operation applied to element i of each input (integer results modulo 2^width, NaN winning min/max), whether either argument is an array or a scalar, whatever the array length or stride. No element outside the arrays is read or written.',
     ['inputs', 'configurations'], 'every element value, dtype, operator, argument mode (array/array, array/scalar, scalar/array) and array length up to the bound', T_IN,
     ['src/BasicMath.cpp'], [('BasicMathTwoInputs, GetSimpleMathOpFast/Slow, SimpleMathOpFast*', 'src/BasicMath.cpp')], ['BasicMathTwoInputs'])
prop('C02', 'Comparisons are exact mathematical comparisons for every dtype pair',
     'The six comparison operators return, for every element, exactly the mathematical truth value of the comparison, for all integer dtypes including mixed signed/unsigned 64-bit, and IEEE truth values for floats (every comparison with NaN is false except not-equal). The result does not depend on scalar/array mode or position.',
     ['inputs', 'configurations'], 'every pair of element values, dtype, operator, argument mode and length up to the bound', T_IN,
     ['src/Compare.cpp'], [('CheckMathOpTwoInputs / GetComparisonOp', 'src/Compare.cpp')], ['BasicMathTwoInputs'])
prop('C03', 'Unary operations are elementwise and classify every bit pattern correctly',
     'abs, negative, sign, not, isnan, isnotnan, isfinite, isinf, isnormal, isnanorzero, signbit and their negations return for each element exactly the defined scalar result, over every bit pattern including NaN, infinities, denormals, signed zeros and the integer invalid sentinel, whatever the length, position or stride of the input.',
     ['inputs', 'configurations'], 'every element value, dtype, function, length up to the bound and input stride', T_IN,
     ['src/UnaryOps.cpp', 'src/one_input.cpp', 'src/one_input_impl.h'], [('BasicMathUnaryOp, BasicMathOneInput', 'src/UnaryOps.cpp')], ['BasicMathUnaryOp'])
prop('C04', 'Safe conversion preserves invalid values between every pair of dtypes',
     'Safe conversion of an array maps the invalid marker of the source dtype (the integer sentinel or NaN) to the invalid marker of the target dtype and every other value to the ordinary C conversion of that value; unsafe conversion applies the ordinary conversion to every value. The result depends only on the element, not on its position.',
     ['inputs', 'configurations'], 'every element value and every ordered pair of numeric dtypes, lengths up to the bound', T_IN,
     ['src/Convert.cpp'], [('ConvertSafe, ConvertUnsafe, ConvertBase', 'src/Convert.cpp')], ['ConvertSafe', 'ConvertUnsafe'])
prop('C05', 'Reductions return the exact fold of all the elements',
     'sum, nansum, min, max, nanmin, nanmax, argmin, argmax, mean and the nan variants over an array return the defined fold of all its elements: integer sums are exact as long as they fit 64 bits (larger ones are returned as a float), an invalid element (the integer marker or NaN) makes sum, min and max invalid while the nan variants ignore it, and arg results name the first position attaining the extreme. The result does not depend on how the array is split into vector body, tail or parallel chunks.',
     ['inputs', 'configurations', 'schedules'], 'every element value, dtype, function and length up to the bound, and every split into work chunks', T_IN,
     ['src/Reduce.cpp'], [('Reduce', 'src/Reduce.cpp')], ['Reduce'])
prop('C06', 'Sorting returns a stable ordered permutation of its input',
     'An index sort returns a permutation of 0..n-1 under which the keys are non-decreasing, equal keys keep their input order, and floating-point NaNs come last; multi-key sorts order lexicographically with the last key most significant. A value sort returns the same multiset of values in non-decreasing order with NaNs last.',
     ['inputs'], 'every array of up to the bounded length over every numeric dtype and fixed-width strings', 'Tests sort a handful of arrays; sortedness, stability and permutation must hold for all key patterns including ties, NaNs and sentinels.',
     ['src/Sort.cpp'], [('LexSort32/64, Sort, SortInPlace', 'src/Sort.cpp')], ['LexSort32', 'LexSort64', 'Sort', 'SortInPlace'])
prop('C07', 'Grouping from a sort numbers equal keys alike and in sort order',
     'Given keys and a valid sort index, the grouping from a lexsort assigns the same bin to two rows exactly when all their keys are equal, numbers the bins consecutively in sorted order, and reports for each bin its first row and its exact count.',
     ['inputs'], 'every key array up to the bounded length together with every valid sort order', 'Not exercised by the unit tests at all.',
     ['src/Sort.cpp'], [('GroupFromLexSort', 'src/Sort.cpp')], ['GroupFromLexSort'])
prop('C08', 'Hash grouping assigns equal keys the same bin, numbered by first appearance',
     'Hash grouping gives two unfiltered rows the same bin number exactly when all their key columns are equal, numbers bins from 1 in order of first appearance, puts filtered-out rows in bin 0, and returns for each bin the index of its first row and the total number of bins. Rows of string keys compare by content.',
     ['inputs'], 'every assignment of key values (hash collisions included) and filters up to the bounded number of rows', 'Hash tables are tested with a few data sets; collisions, sentinels, NaN and signed-zero keys and filter patterns cannot be enumerated by tests.',
     ['src/HashLinear.cpp', 'src/MultiKey.cpp'], [('MultiKeyGroupBy32, GroupByHash', 'src/MultiKey.cpp, src/HashLinear.cpp')], ['MultiKeyGroupBy32', 'MultiKeyUnique32'])
prop('C09', 'Membership reports exactly the members and their first location',
     'For every element of the first array, membership returns true exactly when an equal element occurs in the second array, and the returned location is the index of the first such occurrence (the invalid index when there is none), for every dtype including floats, strings and mixed-width strings.',
     ['inputs'], 'every pair of arrays up to the bounded lengths', 'Tests try random arrays with a few dtypes; rare collisions and boundary values decide correctness.',
     ['src/HashLinear.cpp', 'src/is_member_tg.h', 'src/MultiKey.cpp'], [('IsMember32, MultiKeyIsMember32', 'src/HashLinear.cpp')], ['IsMember32', 'IsMember64', 'MultiKeyIsMember32'])
prop('C10', 'As-of alignment picks the nearest permitted row of the other table',
     'Merging two time-sorted key columns as-of (optionally within matching group keys) returns for each left row the last right row whose time is not later (or, for the forward direction, the first right row not earlier; strictly when exact matches are disallowed), and the invalid index when none exists.',
     ['inputs'], 'every pair of sorted time columns and group assignments up to the bounded lengths, every mode', 'Tests exercise a few parameter combinations with random data.',
     ['src/MultiKey.cpp', 'src/HashLinear.cpp'], [('MultiKeyAlign32, MergeBinnedAndSorted', 'src/MultiKey.cpp, src/HashLinear.cpp')], ['MergeBinnedAndSorted', 'MultiKeyAlign32'])
prop('C11', 'Packed group structures partition the rows exactly',
     'From bin numbers, the bin counts, packed group index, first-row offsets and next/previous-row links describe one and the same partition: counts equal the number of rows per bin, each group segment lists exactly the rows of its bin in ascending order, and following the links from the first row of a bin visits each of its rows exactly once.',
     ['inputs'], 'every bin assignment (including the filtered bin 0) up to the bounded number of rows and bins', 'Not covered by the unit tests except through downstream functions.',
     ['src/MultiKey.cpp', 'src/Convert.cpp'], [('BinCount, GroupFromBinCount, GroupByPack32, MakeiNext, MakeiFirst', 'src/MultiKey.cpp, src/Convert.cpp')], ['BinCount', 'GroupFromBinCount', 'GroupByPack32', 'MakeiNext', 'MakeiFirst'])
prop('C12', 'Group aggregates equal the aggregate of each bin\'s own rows',
     'sum, mean, min, max and the nan variants computed by group return for every bin the value obtained from exactly the rows assigned to that bin (integers exactly, invalid values ignored or propagated as the variant defines, empty bins yielding the documented empty value), and rows in bin 0 never contribute to another bin. Key arrays that are not contiguous are declined.',
     ['inputs', 'configurations'], 'every value and bin assignment up to the bounded number of rows and bins, every value dtype and bin index width', 'Tests cover a few random data sets per dtype.',
     ['src/GroupBy.cpp'], [('GroupByAll32, GroupByAll64', 'src/GroupBy.cpp')], ['GroupByAll32', 'GroupByAll64'])
prop('C13', 'Order-based group functions select within each bin\'s own rows in row order',
     'first, last, nth, median, mode, quantiles (midpoint between neighbours) and rolling sum, mean, their nan variants, shift, difference and running count over packed groups use only rows of the bin at hand, in row order, and return the element, order statistic or window result for every bin and row, with the invalid value where the element or window does not exist (for rows of bin 0 too), for every window size; negative windows of sums and means are errors, and index arrays that are not contiguous are declined. The smallest of several most frequent values is the mode.',
     ['inputs', 'configurations'], 'every value and grouping up to the bound, every window/shift/index parameter in range', 'Tests cover single examples.',
     ['src/GroupBy.cpp'], [('GroupByAllPack32', 'src/GroupBy.cpp')], ['GroupByAllPack32'])
prop('C14', 'Cumulative group operations accumulate per bin in row order',
     'cumulative sum, product, min, max, count and decay-averages by group return at every row the accumulation of exactly the earlier and current rows of the same bin that pass the filter, from the last row that passes both the filter and the reset condition on, treating invalid values as the function defines, and rows of bin 0 get the invalid value (a count of 0). Keys and masks that are not contiguous are declined.',
     ['inputs', 'configurations'], 'every value, bin assignment, filter and reset pattern up to the bound', 'Tests cover cummin/cummax only.',
     ['src/Ema.cpp'], [('EmaAll32', 'src/Ema.cpp')], ['EmaAll32'])
prop('C15', 'Rolling and time-window results equal the fold over the exact window',
     'Rolling sum and mean return at every row the fold over exactly the rows in the window ending at that row (fewer at the start), nan variants skipping invalid values; time-window sum and product fold the row and the earlier rows whose time is at most the given span before it. No row outside the array or the window contributes, a NaN that has left the window included; negative windows are errors, and layouts that are not handled are declined.',
     ['inputs', 'configurations'], 'every value, window length and (sorted) time vector up to the bound', 'Not exercised by the unit tests.',
     ['src/Ema.cpp', 'src/TimeWindow.cpp'], [('Rolling, TimeWindow', 'src/Ema.cpp, src/TimeWindow.cpp')], ['Rolling', 'TimeWindow'])
prop('C16', 'Fancy indexing returns the indexed element or the default, never another',
     'Indexing values by an integer array returns at each position the element named by the index (negative indices of signed dtypes counting from the end, unsigned ones never negative), and the given default or the invalid value of the dtype when the index is out of range; memory outside the value array is never read, for every index dtype, value dtype and stride. Layouts that are not handled are declined, not misread.',
     ['inputs', 'configurations'], 'every index value of every integer width and every value array up to the bound', 'Tests try a fixed set of index arrays; out-of-range behaviour must hold for all 2^64 index values.',
     ['src/Merge.cpp'], [('MBGet', 'src/Merge.cpp')], ['MBGet'])
prop('C17', 'Boolean selection keeps exactly the true rows in order',
     'Selecting by a boolean mask returns exactly the elements at true positions in their original order; converting a mask to indices returns exactly the true positions ascending (and the false positions when both are requested); counting a mask returns the number of true entries. This holds for every mask content, length and stride of one-dimensional arrays; multi-dimensional arrays that are not row-major contiguous are declined.',
     ['inputs'], 'every mask of bounded length, every value dtype', 'Not exercised by the unit tests.',
     ['src/Merge.cpp'], [('BooleanIndex, BooleanToFancy, BooleanSum', 'src/Merge.cpp')], ['BooleanIndex', 'BooleanToFancy', 'BooleanSum'])
prop('C18', 'Masked and indexed assignment changes exactly the addressed elements',
     'Assigning through a mask or an integer index stores the given values at exactly the addressed positions, in order, and leaves every other element bit-for-bit unchanged; when the request cannot be honoured the array is left untouched and the request is declined.',
     ['inputs'], 'every mask/index content, value and length up to the bound', 'Not exercised by the unit tests.',
     ['src/Convert.cpp'], [('SetItem, PutMask', 'src/Convert.cpp')], ['SetItem', 'PutMask'])
prop('C19', 'Stacking, shifting and homogenising arrays place every element correctly',
     'Horizontally stacking arrays yields their elements concatenated in order, converted to the common dtype with invalid values preserved; shifting arrays moves every element by exactly the given amount and fills the vacated positions with the invalid value; homogenising converts each array element for element.',
     ['inputs', 'configurations'], 'every element value, dtype combination, length split and shift up to the bound', 'Not exercised by the unit tests.',
     ['src/Convert.cpp'], [('HStack, ShiftArrays, HomogenizeArrays', 'src/Convert.cpp')], ['HStack', 'ShiftArrays', 'HomogenizeArrays'])
prop('C20', 'Filter folding removes exactly the filtered rows from a grouping',
     'Combining bin numbers with a boolean filter sets exactly the filtered-out rows to bin 0 and leaves the others unchanged; combining two groupings yields exactly the combined bin number second * (max1 + 1) + first in a type that holds it, with 0 for rows filtered out (and, under a filter, for combined numbers out of range); folding a filter into one grouping renumbers the remaining bins from 1 in order of first appearance and returns the first row of each and their number. Arrays that are not laid out alike and contiguous are declined.',
     ['inputs'], 'every bin assignment of either sign, filter and unique count up to the bound', 'Tests cover a few patterns of one function.',
     ['src/Convert.cpp'], [('CombineFilter, CombineAccum1Filter, CombineAccum2Filter', 'src/Convert.cpp')], ['CombineFilter', 'CombineAccum1Filter', 'CombineAccum2Filter'])
prop('C21', 'Binning by cut points places every value between its neighbouring cuts',
     'For ascending cut points and a value, binning returns the index of the first cut not below (or, in the open mode, strictly above) the value, the out-of-range and NaN values getting bin 0 or the documented end bins; binary-search and sorted-merge variants agree on every sorted input.',
     ['inputs', 'configurations'], 'every value and every ascending cut array up to the bound, every dtype and mode', 'Tests try selected values around a fixed cut array.',
     ['src/Bins.cpp'], [('BinsToCutsBSearch, BinsToCutsSorted', 'src/Bins.cpp')], ['BinsToCutsBSearch', 'BinsToCutsSorted'])
prop('C22', 'Reindexing and shuffle inversion are exact',
     'Reordering data by an index returns data[index[i]] at position i; inverting a permutation returns the array r with r[p[i]] = i for every i; neither touches memory outside its arrays when the index is out of range; non-contiguous arrays are rejected.',
     ['inputs'], 'every index array and data up to the bound', 'Not exercised by the unit tests.',
     ['src/Bins.cpp', 'src/Merge.cpp'], [('ReIndex, ReverseShuffle, ReIndexGroups', 'src/Bins.cpp, src/Merge.cpp')], ['ReIndex', 'ReverseShuffle', 'ReIndexGroups'])
prop('C23', 'Date and time strings parse to the exact nanosecond or to invalid',
     'Every well-formed time (h:m[:s[.fraction]]), date (y-m-d or yyyymmdd) or date-time string, with white space allowed around it and zero padding allowed behind it, parses to the exact count of nanoseconds it denotes in the Gregorian calendar from 1970 to 2099, or to 0 when a field of the date, or of a string that is a time only, is out of range (no such day in that month included), a date-time whose time is out of range denoting the start of its day, and gives no warning unless white space follows it; a malformed string gives 0 or a warning. Parsing with a format behaves the same for the strings the format accepts and gives 0 for all others. Parsing never looks outside the string, for any bytes or code points whatsoever, each element is parsed on its own, and arrays that are not contiguous are declined.',
     ['inputs'], 'every byte string of every bounded width', 'Tests parse a list of literals.',
     ['src/DateTime.cpp', 'src/strptime5.cpp'], [('TimeStringToNanos, DateStringToNanos, DateTimeStringToNanos, StrptimeToNanos', 'src/DateTime.cpp')], ['TimeStringToNanos', 'DateStringToNanos', 'DateTimeStringToNanos'])
prop('C24', 'Parallel work covers every element exactly once under any schedule',
     'Splitting an operation into work blocks hands every element of the array to exactly one block call, for every array length and every interleaving of the worker threads, and the caller does not return before all blocks are finished.',
     ['schedules', 'inputs'], 'every array length and every interleaving of a bounded number of workers and blocks', 'A test run sees only a few schedules and lengths.',
     ['src/MathThreads.h', 'src/MathWorker.h', 'src/MathThreads.cpp'], [('GetNextWorkBlock, WorkMain, SegmentBins', 'src/MathThreads.h, src/MathWorker.h')], ['DoMultiThreadedChunkWork', 'DoMultiThreadedWork'])
prop('C25', 'Recycled memory is never shared by two live arrays',
     'An array returned by the recycling allocator never shares memory with another live array, has exactly the requested length, dtype and item size, and recycling, reuse and garbage collection never free memory that is in use or leak the accounting of what is held.',
     ['histories'], 'every bounded sequence of recycle, allocate and collect operations on arrays of any size class', 'Not exercised by the unit tests.',
     ['src/Recycler.cpp'], [('RecycleNumpyInternal, RecycleFindArray, GarbageCollect', 'src/Recycler.cpp')], ['RecycleNumpy', 'TryRecycleNumpy', 'AllocateNumpy'])
prop('C26', 'The checksum is CRC-64 of the bytes, whatever their alignment or length',
     'The CRC of a buffer equals the CRC-64 (ECMA-182 polynomial, reflected, initial and final complement, the xz CRC-64) of exactly its bytes, independent of alignment, length residue and how the implementation splits the buffer.',
     ['inputs'], 'every buffer content of every bounded length and alignment', 'Not exercised by the unit tests.',
     ['src/CRC32.cpp'], [('CalculateCRC', 'src/CRC32.cpp')], ['CalculateCRC'])
prop('C27', 'Bit counting returns the population count of every element',
     'The bit count of each element of an integer or boolean array equals the number of one bits in its two\'s complement representation, for every integer width and position; non-contiguous arrays are rejected rather than misread.',
     ['inputs'], 'every value of every integer dtype, lengths up to the bound', 'Not exercised by the unit tests.',
     ['src/BitCount.cpp'], [('BitCount', 'src/BitCount.cpp')], ['BitCount'])
prop('C28', 'Where selects elementwise between its two choices',
     'Where returns at each position the element of the first choice if the condition is true and of the second otherwise, for arrays, scalars and fixed-width strings, at every length; layouts it does not handle are declined rather than misread.',
     ['inputs', 'configurations'], 'every condition, value, dtype, scalar mode and stride up to the bound', 'Not exercised by the unit tests.',
     ['src/BasicMath.cpp'], [('Where', 'src/BasicMath.cpp')], ['Where'])
prop('C29', 'Categorical remapping and membership translate every code',
     'Translating category codes through a category-to-category map returns for every row the mapped code and membership flag, treating invalid and out-of-range codes as non-members.',
     ['inputs'], 'every code array and mapping up to the bound', 'Not exercised by the unit tests.',
     ['src/HashFunctions.cpp', 'src/Merge.cpp'], [('IsMemberCategorical, IsMemberCategoricalFixup, ReIndexGroups', 'src/HashFunctions.cpp')], ['IsMemberCategorical', 'IsMemberCategoricalFixup', 'ReIndexGroups'])
prop('C30', 'An SDS file read back equals the arrays that were written',
     'Arrays written to an SDS file and read back have the same names, dtypes, shapes and bytes, in any section, compressed or not; stacking files concatenates their rows in order, and a boolean filter on read returns exactly the filtered rows.',
     ['inputs', 'configurations'], 'every array content, count and shape up to the bound', 'sdsfile tests have no assertions.',
     ['src/SDSFile.cpp', 'src/SDSFilePython.cpp'], [('SDSWriteFile, SDSReadFile', 'src/SDSFile.cpp')], ['CompressFile', 'DecompressFile'])
prop('C31', 'Reading a damaged SDS file fails cleanly and never touches foreign memory',
     'Whatever bytes an SDS file contains, reading it either returns arrays or reports an error; it never reads or writes memory outside its buffers.',
     ['inputs', 'fault_sequences'], 'every content of the file header and directory up to the bound', 'No test reads a damaged file.',
     ['src/SDSFile.cpp'], [('SDSReadFile, header validation', 'src/SDSFile.cpp')], ['DecompressFile'])
prop('C32', 'Interpolation follows the bracketing segment and extrapolates or clips',
     'For ascending knots, interpolation returns at every x the value of the segment bracketing x, the end segment extended (or the end value when clipping) outside, and NaN for NaN input, using only knots of its own row.',
     ['inputs'], 'every x and knot array up to the bound', 'Not exercised by the unit tests.',
     ['src/Ema.cpp'], [('InterpExtrap2d', 'src/Ema.cpp')], ['InterpExtrap2d'])
prop('C33', 'Sortedness and NaN/Inf tail counts are decided correctly',
     'The sortedness test returns true exactly for non-decreasing arrays with any NaNs at the end, (strings compare by their whole width), and the NaN/Inf counts from a valid sort order equal the numbers of NaNs, positive and negative infinities in the array (for integers: of invalid markers, which sort first for signed and last for unsigned dtypes).',
     ['inputs'], 'every array up to the bound and its sort order', 'Not exercised by the unit tests.',
     ['src/Sort.cpp', 'src/Bins.cpp'], [('IsSorted, NanInfCountFromSort', 'src/Sort.cpp, src/Bins.cpp')], ['IsSorted', 'NanInfCountFromSort'])
prop('C34', 'Record arrays convert to columns without losing or mixing fields',
     'Converting an array of fixed-size records to columns stores field f of record i at position i of column f, byte for byte, for every record count and field layout.',
     ['inputs'], 'every record content, field width and record count up to the bound', 'Not exercised by the unit tests.',
     ['src/TileRepeat.cpp'], [('RecordArrayToColMajor', 'src/TileRepeat.cpp')], ['RecordArrayToColMajor'])
prop('C35', 'String array operations respect fixed widths and padding',
     'Concatenating fixed-width byte or unicode strings treats each element as its characters up to the first null or the full width and yields both parts in order, padded with nulls; trimming in place replaces exactly the trailing spaces by nulls, whatever the stride; nothing outside the elements is read or written, and layouts that are not handled are declined.',
     ['inputs'], 'every character content, width pair and length up to the bound', 'Not exercised by the unit tests.',
     ['src/BasicMath.cpp', 'src/Convert.cpp'], [('ConcatTwoStrings, ConcatTwoUnicodes, RemoveTrailingSpaces', 'src/BasicMath.cpp, src/Convert.cpp')], ['BasicMathTwoInputs', 'RemoveTrailingSpaces'])
