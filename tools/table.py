SEQ = 'Float arithmetic is treated as real arithmetic; OpenMP pragmas are not compiled, so the proof is for the sequential program.'
prop('C01', 'Array initialisers deliver exactly the requested block or fail cleanly',
 'Creating a one-dimensional array, or a two-dimensional array of fixed width, from a value or from a source array delivers a block in which every element equals the converted source value and the rows follow one another in memory. When it reports failure (non-positive length of a one-dimensional array, missing source, target already holding an array, or memory exhausted) the target keeps its former value and nothing is leaked. Sources are never modified.',
 ['inputs', 'fault_sequences'], 'all lengths, widths, element types, source contents and positions of a failing allocation',
 'The tests use a few small arrays and never let an allocation fail.',
 ['src/utils_array.h'], [('Initialize1DArray', 'src/utils_array.h'), ('Initialize2DArray', 'src/utils_array.h')],
 'Every obligation discharged for int/float/double element pairs, all lengths, including both allocation outcomes, memory safety and leak freedom. ' + SEQ)
prop('C02', 'Arrays are released exactly once and packed rows unpack faithfully',
 'Releasing an array frees all of its storage exactly once and leaves the pointer null, and releasing a null pointer does nothing. Building a row array out of a packed buffer (row count, then for every row its length followed by its values) yields rows that repeat each length-prefixed record in order, reports the row count and the greatest row length, leaves the buffer unchanged and leaks nothing.',
 ['inputs'], 'all row counts, row lengths and values', 'The tests unpack one small buffer and cannot see a leak or a double release.',
 ['src/utils_array.h'], [('Release1DArray', 'src/utils_array.h'), ('Release2DArray', 'src/utils_array.h'), ('Initialize2DArray (packed buffer)', 'src/utils_array.h')],
 'All lengths and contents; memory safety and leak freedom included. ' + SEQ)
prop('C03', 'Maximum, minimum and sum cover every element of an array',
 'The maximum (minimum) of a non-empty numeric array is one of its elements and no element exceeds (is below) it. The sum of an array, plain or through an index list, adds every selected element exactly once and is zero for no elements; the inputs are left unchanged.',
 ['inputs'], 'all lengths, contents and index lists', 'The tests sample single short arrays.',
 ['src/utils_math.h'], [('MaxInArray / MinInArray', 'src/utils_math.h'), ('Sum', 'src/utils_math.h')],
 'Proved for int, float and double, all lengths. Sums in real arithmetic (no rounding); partial sums of int arrays assumed within int. ' + SEQ)
prop('C04', 'Basic statistics describe exactly the valid cells',
 'The statistics of a value array, and of each layer of a multi-layer value array, are the number of elements different from the excluded value and, if there is any, their mean, maximum, minimum, population standard deviation and range. Excluded elements never influence a result, layers never influence one another, and the input is left unchanged.',
 ['inputs'], 'all lengths, layer counts, values and excluded values', 'The tests compare a handful of rasters; every mix of excluded and valid cells must hold.',
 ['src/utils_math.h'], [('BasicStatistics', 'src/utils_math.h')],
 'Proved for int, float and double in real arithmetic with square root and quotient as functions of their arguments; values assumed within the float range. ' + SEQ)
prop('C07', 'Calendar arithmetic agrees with the Gregorian calendar',
 'Leap years, day-of-year and Julian day numbers follow the Gregorian calendar, so that consecutive days have consecutive Julian numbers and 1970-01-01 has number 2440588. The year, month, day, day-of-year and Julian day of an instant in coordinated time are those of its Gregorian date, and turning a date into an instant is the inverse.',
 ['inputs'], 'all years of the common era, months, days and instants', 'The tests check a few dates; century and leap rules fail on others.',
 ['src/utils_time.cpp'], [('IsLeapYear / DayOfYear / JulianDay', 'src/utils_time.cpp'), ('ConvertYMDToTime', 'src/utils_time.cpp'), ('GetYear / GetMonth / GetDay', 'src/utils_time.cpp')],
 'Proved for all dates of years 1 and later; the C library calendar functions (gmtime_r, timegm, localtime_r, mktime) are under assumed contracts. The string conversions are exercised by the driver in the thorough tier only.')
prop('C08', 'Date-time values denote one instant and shift by exact milliseconds',
 'A date-time value created from an instant denotes that instant: its calendar fields, milliseconds and totals agree. Moving it forward or backward by any number of milliseconds changes the instant by exactly that amount, moving there and back restores it, and comparison orders values by instant; no operation leaks memory.',
 ['inputs'], 'all instants since 1970, shifts and time zones', 'The tests print a few values of the current time.',
 ['src/utils_time.cpp', 'src/utils_time.h'], [('DateTime::Forward / Backward', 'src/utils_time.cpp'), ('DateTime::FromFileTime / FromDateTime', 'src/utils_time.cpp'), ('ConvertTMToDateTime', 'src/utils_time.cpp')],
 'All obligations discharged; localtime_r and mktime are under assumed contracts (mktime inverts localtime_r, fields within their ranges).')
WF = 'The raster is assumed well formed (the class invariant: at least one row and column, cell count within int, strictly ascending positions that agree with their row/column pairs). '
prop('C09', 'A stored index and its row and column denote the same cell',
 'Looking up a row and column of a raster returns -2 outside the grid and otherwise the index under which that cell is stored: its row-major number when every cell is stored, or, when only some cells are stored, the unique place of the cell among the stored positions and -1 if it is not stored. Looking up never changes the raster.',
 ['inputs'], 'all grid sizes, sets of stored positions, rows and columns', 'The tests look up a few cells of one small grid; a search over sorted positions goes wrong on particular sizes or at the ends.',
 ['src/data_raster.hpp'], [('clsRasterData::GetPosition(int,int)', 'src/data_raster.hpp')],
 WF + 'Proved for int and float rasters, one and two-dimensional, with and without stored positions. ' + SEQ)
prop('C10', 'Reading and writing a cell touches exactly that cell and layer',
 'Reading a value by row and column (and layer) or by stored index returns the value stored for that cell and layer, and the no-data value when the cell is outside the grid, is not stored, or the layer does not exist; reading all layers of a cell returns one value per layer in order, or null for an invalid request. Writing a cell changes the value of that cell and layer only and does nothing for an invalid request. Rasters created on a mask address cells through the stored cells of the mask.',
 ['inputs'], 'all grids, stored positions, layers, rows, columns, indices and values', 'The tests read a few cells of small rasters.',
 ['src/data_raster.hpp'], [('clsRasterData::GetValue', 'src/data_raster.hpp'), ('clsRasterData::GetValueByIndex', 'src/data_raster.hpp'), ('clsRasterData::SetValue', 'src/data_raster.hpp')],
 WF + 'GetPosition is used through its contract, which C09 proves. Proved for int and float rasters of both dimensionalities with and without stored positions. ' + SEQ)
prop('C11', 'Coordinates and grid cells convert into each other consistently',
 'The coordinate of a row and column is the centre of that cell (rows counted from the top). The row and column (or stored index) found for a coordinate are those of the one cell that contains it, cells including their left and upper edges, for the own header or a given one; points outside the grid are reported as outside, and converting the centre of a cell back gives the same cell.',
 ['inputs'], 'all headers, rows, columns and coordinates, including coordinates on cell edges', 'The tests convert a few points, none on an edge of the grid.',
 ['src/data_raster.hpp'], [('clsRasterData::GetCoordinateByRowCol', 'src/data_raster.hpp'), ('clsRasterData::GetPositionByCoordinate', 'src/data_raster.hpp'), ('clsRasterData::GetPosition(double,double)', 'src/data_raster.hpp')],
 WF + 'Coordinates in real arithmetic: a coordinate within rounding distance of an edge may be attributed to the neighbouring cell. Header values equal to -9999 (the default no-data) are excluded for the stored-index lookup. ' + SEQ)
MAPS = 'std::map and std::string are under assumed contracts (finite maps, value semantics). '
prop('C20', 'Headers, options and sub-region headers keep exactly what was set',
 'Setting a header value or an option makes the key hold exactly that value and leaves every other entry alone. Copying headers or options, also into a raster, gives the entries of the source precedence and keeps every other entry, and the raster\'s cell number, layer number and no-data value follow. Fresh headers hold exactly the documented keys. The lower-left centre of a raster is its stored centre, or the corner moved by half a cell; the header of a sub-region describes exactly its rows and columns.',
 ['inputs'], 'all header and option maps, keys and values', 'The tests set the usual keys only.',
 ['src/data_raster.cpp', 'src/data_raster.hpp'], [('UpdateHeader / CopyHeader / UpdateStringMap / CopyStringMap', 'src/data_raster.cpp'), ('clsRasterData::SetHeader', 'src/data_raster.hpp'), ('SubsetPositions::GetHeader', 'src/data_raster.cpp')],
 MAPS + 'Proved for all maps, for int and float rasters. ' + SEQ)
prop('C24', 'Raster data type names, codes and defaults are consistent',
 'Every raster data type has one name; that name, its documented aliases and any capitalisation of them denote that type, and any other text denotes the unknown type. The default no-data value of a type lies in its range (for 64-bit unsigned: is the double nearest to its largest value), the matching GDAL type has the same width, signedness and kind, and choosing an output type by name records that type in the raster and its canonical name in the options without touching other options.',
 ['inputs'], 'all data types, texts and option maps', 'The tests use a few type names.',
 ['src/data_raster.cpp', 'src/data_raster.hpp'], [('RasterDataTypeToString / StringToRasterDataType', 'src/data_raster.cpp'), ('CvtToGDALDataType / DefaultNoDataByType', 'src/data_raster.cpp'), ('clsRasterData::SetOutDataType', 'src/data_raster.hpp')],
 MAPS + 'Upper-casing is an uninterpreted function that fixes upper-case literals. The -9999 default of the unknown type is taken as specified. ' + SEQ)
prop('C25', 'Whole-raster edits change exactly the cells they name',
 'Replacing the no-data value rewrites, in every layer and for full-grid as well as valid-position storage, exactly the stored cells that held the old no-data value, leaves every other cell unchanged, and makes the new value the no-data and default value and the header entry, leaving other header entries alone. Reclassifying stores in every cell the class given for the integer part of its value, or no-data when the table has none, and leaves the given table unchanged.',
 ['inputs'], 'all rasters, layers, storage forms, replacement values and class tables', 'The tests do it for one or two data sets.',
 ['src/data_raster.hpp'], [('clsRasterData::ReplaceNoData', 'src/data_raster.hpp'), ('clsRasterData::Reclassify', 'src/data_raster.hpp')],
 MAPS + 'Float cells whose integer part is no int are excluded (undefined conversion in C++). No-data comparison is FloatEqual, as specified by C05. ' + SEQ)
prop('C26', 'Statistics of a raster describe the data they were computed from',
 'Any of the six statistics, asked for by name in any capitalisation and for any layer, is the one BasicStatistics defines for that layer of the stored cells: computed on the first request, kept unchanged until an update is asked for, and recomputed from the current cells by an update. An unknown name or layer gives the default value (or no array), asking never changes cells, header or options, and the per-layer arrays of a former computation are released exactly once.',
 ['inputs', 'histories'], 'all rasters, statistics states, names and layers', 'The tests ask for the statistics of a few data sets once.',
 ['src/data_raster.hpp', 'src/data_raster.cpp'], [('clsRasterData::CalculateStatistics / UpdateStatistics', 'src/data_raster.hpp'), ('clsRasterData::GetStatistics (both forms)', 'src/data_raster.hpp'), ('InitialStatsMap', 'src/data_raster.cpp')],
 MAPS + 'BasicStatistics is used through its contract (C04) as an uninterpreted function of the cells, count, layer and no-data value. Histories follow from the per-call contracts over the class invariant: six names, and layer arrays exist exactly when computed. ' + SEQ)
prop('C27', 'A constructed raster holds exactly the data, extent and options given',
 'A raster constructed from an array takes that array over unchanged, states exactly its rows, columns, cell size, lower left corner, no-data value, layers and cells in its header, and has the given options over empty standard ones, the output type they name, no positions, no mask, no statistics and no subsets. A raster constructed on a mask copies exactly one value per valid cell and layer, shares the valid positions of the mask without owning them, and takes extent, no-data value, default value and coordinate system from the mask; with a wrong number of values it stays unusable and keeps nothing.',
 ['inputs'], 'all arrays, sizes, extents, options and masks', 'The tests build a handful of rasters from files and arrays.',
 ['src/data_raster.hpp'], [('clsRasterData constructors (array, mask)', 'src/data_raster.hpp'), ('clsRasterData::InitializeRasterClass', 'src/data_raster.hpp'), ('clsRasterData::GetRasterPositionData', 'src/data_raster.hpp')],
 MAPS + 'The mask has its valid positions computed; a mask without them is compacted first (C12). Copying headers, options and arrays is used through the contracts proved under C20 and C01, which this check discharges too. ' + SEQ)
prop('C19', 'Copies of a raster are deep and owned memory is released exactly once',
 'Copying a raster, into a new or an existing one of either storage form, gives the target the same cells, layers, positions, header and option entries, statistics, mask, and subsets in arrays of its own, so that neither follows later changes of the other; what the target owned before is released, what it only shared with a mask is not. Destroying a raster or a subset releases each array it owns exactly once and none it shares; nothing is leaked or released twice, whatever copies exist.',
 ['inputs', 'histories'], 'all rasters, storage forms, ownership states, statistics states and subsets', 'The tests copy one raster and never look at who owns what; leaks and double releases do not fail them.',
 ['src/data_raster.hpp', 'src/data_raster.cpp'], [('clsRasterData::Copy / copy constructor / destructor', 'src/data_raster.hpp'), ('SubsetPositions copy constructor / destructor', 'src/data_raster.cpp'), ('clsRasterData::ReleaseSubset', 'src/data_raster.hpp')],
 MAPS + 'Proved for all sizes and contents over every combination of storage form, ownership and statistics state; the number of subsets in a raster is bounded by two in these proofs (their keys, sizes and contents are arbitrary). A raster is not copied onto itself. Copying headers, options and arrays is used through the contracts of C20 and C01, discharged here too. ' + SEQ)
prop('C28', 'Values are found in and removed from a vector completely',
 'A value is reported to be in a vector exactly if some element equals it. Removing a value removes every element equal to it, adjacent or not, and keeps all other elements in their order; a vector without the value, or an empty one, stays as it is.',
 ['inputs'], 'all vectors and values', 'The tests remove one value from one vector.',
 ['src/utils_array.h'], [('ValueInVector', 'src/utils_array.h'), ('RemoveValueInVector', 'src/utils_array.h')],
 'Proved for int, float and double vectors of any length. std::vector, std::find, std::count and std::remove are under assumed contracts; NaN elements are not considered.')
prop('C15', 'Sub-regions of a raster output their values in their own cells',
 'Grouping the cells of a raster into sub-regions puts every valid cell in exactly the sub-region of its value (or of the group named for that value), in a rectangle that just covers it and whose header places it on the same coordinates as the raster. A sub-region accepts one value (or one per layer) for each of its cells, replacing earlier values of either form. The data output for one sub-region, or for all combined, holds in each cell and layer exactly the value set for it, the original value, or the value of its class, as asked for; cells of no sub-region hold no-data, and those of unusable sub-regions the default value. An output that cannot be formed is refused and leaves nothing allocated.',
 ['inputs', 'histories'], 'all rasters, groups, sub-regions, values, class tables and default values', 'The tests write a few sub-region files and compare none of the other forms.',
 ['src/data_raster.hpp', 'src/data_raster.cpp'], [('SubsetPositions::SetData / Set2DData / Output / GetHeader', 'src/data_raster.hpp'), ('clsRasterData::PrepareSubsetData', 'src/data_raster.hpp'), ('clsRasterData::PrepareCombSubsetData', 'src/data_raster.hpp'), ('clsRasterData::BuildSubSet', 'src/data_raster.hpp')],
 MAPS + 'Proved for SetData, Set2DData, GetHeader, both Prepare functions (combined: two groups, any cells) and Output (one or two layers). BuildSubSet allocates per group in a loop over cells, outside the verifier, and is checked by a bounded driver. Values given must convert to the cell type. ' + SEQ)
prop('C17', 'A raster written through GDAL keeps every cell, no-data, extent and system',
 'Writing a raster to GeoTIFF stores every cell as its own value in the named output type (or its own type when none is named): integral types hold the integer part, cells equal to a no-data value outside the type hold the replacement (the least value of a signed, the greatest of an unsigned type), which then is the no-data value of the file. A raster with a cell the type cannot hold is refused as a whole, as is any failure of GDAL. Extent, cell size and coordinate system are those of the header. Each layer goes to the file of its number, cells without a stored position hold no-data, and no buffer is left allocated.',
 ['inputs', 'fault_sequences'], 'all grids, cell values, no-data values, output types, layers, storage forms and GDAL failures', 'The tests write a few data sets and compare none of the types, extremes or failures.',
 ['src/data_raster.hpp', 'src/data_raster.cpp'], [('WriteSingleGeotiff', 'src/data_raster.hpp'), ('clsRasterData::OutputFileByGdal', 'src/data_raster.hpp'), ('CvtToGDALDataType', 'src/data_raster.cpp')],
 MAPS + 'GDAL is under assumed contracts (create, write, no-data, geotransform, projection, close; cells of 0 written before the no-data value may be lost). Integral output is proved for integral no-data values; int cells as 32-bit values, float cells rounded to nearest and finite. A valid cell equal to the replacement no-data value is not told apart in the file. ' + SEQ)
prop('C18', 'A raster read through GDAL is the one in the file',
 'Reading a file through GDAL gives one value per cell, each the value of its cell in the first band, for every cell type GDAL has except the complex ones; the type, coordinate system, rows, columns, cell size, lower left cell centre and no-data value (the default of the type when the file has none) are those of the file, and other header entries stay. A file that cannot be opened, has no band, has a type that is not supported or cells that cannot be read is refused without handing out values. The file is closed and every buffer released in every case.',
 ['inputs', 'fault_sequences'], 'all sizes, cell types, contents, headers and read failures', 'The tests read a few well-formed files of two types.',
 ['src/data_raster.hpp'], [('ReadRasterFileByGdal', 'src/data_raster.hpp')],
 MAPS + 'GDAL is under assumed contracts. Files are read as float or int; when int is asked for, the cells fit an int. ' + SEQ)
prop('C16', 'A raster written as an ASC grid keeps every cell, extent and no-data',
 'Writing a raster to an ASC grid begins the named file anew with six header lines: columns, rows, lower left cell centre and cell size in digits that read back as the same numbers, and the no-data value; then follows one line for each row from the top, with exactly one value for each cell, in six significant digits (integers in full): the value of its cell, or the no-data value for cells without a stored position. Each layer goes to a file of its own. A file that cannot be opened is reported. The suffix, in any capitalisation, chooses between ASC and GeoTIFF; any other suffix is replaced by that of GeoTIFF, and a name without a folder is refused. The raster stays unchanged.',
 ['inputs', 'fault_sequences'], 'all grids, cell values, headers, layers, storage forms, file names and failures to open', 'The tests write a few ASC files and read none of them cell by cell.',
 ['src/data_raster.hpp', 'src/data_raster.cpp'], [('WriteAscHeaders', 'src/data_raster.cpp'), ('WriteSingleAsc', 'src/data_raster.hpp'), ('clsRasterData::OutputAscFile', 'src/data_raster.hpp'), ('clsRasterData::OutputToFile', 'src/data_raster.hpp'), ('WriteRasterToFile', 'src/data_raster.hpp')],
 'std::ofstream is under an assumed contract: words and numbers are appended to the file in the digits asked for once it is open (a full disk is not considered), and an existing file can be deleted. File names are pure functions of their parts. ' + SEQ)
