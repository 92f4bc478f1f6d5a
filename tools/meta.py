"""Property texts; tools/gen.py writes properties.jsonl and MANIFEST.json from them."""
P = {}


def prop(pid, title, statement, text, why, files, mech, over=("inputs",), note=""):
    P[pid] = dict(id=pid, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=["riptable/" + f for f in files],
                               mechanism=[dict(name=n, where="riptable/" + w) for n, w in mech]))
    P[pid]["_note"] = note


NA = {}


def na(pid, title, statement, text, why, files, mech, reason, over=("inputs",)):
    prop(pid, title, statement, text, why, files, mech, over)
    NA[pid] = reason


prop("R02", "Database-style joins return exactly the relational result",
     "A left, right, inner or outer join of two tables on one or more key columns returns, in row order, exactly the row pairs (and unmatched rows) of the relational definition: invalid (NaN/sentinel/empty-string-as-value) keys are treated consistently, every output row carries values from one left row and one right row, and cells with no partner are the column's invalid value. A lookup join keeps the left table's row count and order and takes the first or last matching right row as requested. Requested de-duplication ('keep') and uniqueness validation are honoured exactly, and disagreeing key counts are rejected.",
     "for all contents of the left and right tables, all key dtypes, join kinds, keep and validate options",
     "Tests join a few fixed tables; duplicate keys on both sides, invalid keys, empty sides and multi-key combinations interact and are sampled at a handful of points.",
     ["rt_merge.py", "rt_numpy.py"],
     [("merge2, merge_lookup, merge, merge_indices", "rt_merge.py"), ("_create_merge_fancy_indices and its jitted kernels", "rt_merge.py"), ("ismember", "rt_numpy.py")])
prop("R03", "As-of joins pick the nearest admissible right row for every left row",
     "An as-of join returns one output row per left row, in left order; with each it carries the right row whose key is nearest in the requested direction (backward, forward or nearest), within the tolerance, honouring whether exact matches are allowed and, when grouping columns are given, only among right rows of the same group. Left rows without an admissible partner get invalid values in every right column, and unsorted key columns are rejected or handled as requested.",
     "for all sorted (or flagged unsorted) key columns, group columns, directions, tolerances and exact-match settings",
     "Ties, equal keys, exact-match exclusion at group borders and tolerance limits form a product the tests sample with a few fixed tables.",
     ["rt_merge.py", "rt_merge_asof.py"],
     [("merge_asof", "rt_merge.py"), ("merge_asof2 and its jitted kernels", "rt_merge_asof.py")])
prop("R12", "Row operations on a dataset keep rows whole",
     "Filtering, slicing, indexing, head/tail, sorting, de-duplicating, trimming and concatenating a dataset select or reorder whole rows: every column of the result shows the values of the same source rows, in the order the operation defines. Sorting is a stable permutation ordered by the requested columns and directions; de-duplication keeps exactly the first, last or no row of each set of equal keys. The source dataset is unchanged unless the operation is an in-place one, and masked assignment changes exactly the selected rows.",
     "for all column contents, masks, indices, slice bounds, sort keys and options",
     "Tests use fixed datasets; ties, NaN keys, empty and single-row tables, negative and out-of-range bounds combine with each operation.",
     ["rt_dataset.py", "rt_struct.py", "rt_sort_cache.py", "rt_fastarray.py", "rt_numpy.py"],
     [("Dataset._getitem / _copy / _set_item", "rt_dataset.py"), ("sort_copy, sort_inplace, sort_view", "rt_dataset.py"), ("duplicated, drop_duplicates, trim, head, tail, concat_rows", "rt_dataset.py")])
prop("R15", "Membership, uniqueness and search answers match their definitions",
     "Membership of each element (of one column or of row tuples of several) in another collection, and the first position where it is found, are reported exactly, with the invalid position for absent ones, and values carried over or mapped by key are those of that position. Unique values, first positions, inverse mapping and counts describe exactly the distinct values in the requested order, restricted to the filter when one is given; duplicate marking, insertion-point search and sortedness tests agree with their definitions.",
     "for all arrays, dtypes on both sides, orders, filters and keep options",
     "Fixed samples miss combinations of dtype mixes, duplicates, invalid values and empty sides.",
     ["rt_numpy.py", "rt_fastarray.py", "rt_grouping.py"],
     [("ismember, unique, searchsorted, issorted", "rt_numpy.py"), ("FastArray.isin, duplicated, unique", "rt_fastarray.py")])
prop("R04", "Grouping is an exact partition and every index derived from it agrees",
     "Grouping rows by one or more key columns puts two rows in the same group exactly when all their keys are equal, the listed unique keys name each group's rows in the promised order (sorted or first appearance), and filtered-out rows belong to no group. First and last row, next and previous row, row counts, packed row lists and per-group filters derived from a grouping describe that same partition. Membership queries, regrouping, copying, filtering and combining groupings preserve which key each row has.",
     "for all key columns (several dtypes, with invalid values), row filters, base indices and construction orders",
     "A grouping is re-encoded in about ten derived index arrays; tests compare a few of them on fixed data and rarely with empty groups, filters and invalid keys together.",
     ["rt_grouping.py", "rt_groupby.py", "rt_numpy.py", "rt_hstack.py"],
     [("Grouping", "rt_grouping.py"), ("groupbyhash, groupbylex, groupbypack, combine_filter", "rt_grouping.py and rt_numpy.py")])
prop("R06", "Group aggregations equal the aggregate of each group's rows",
     "Every grouped reduction (count, sum, mean, median, mode, min, max, first, last, nth, variance, quantile, unique counts, and user functions) returns, per group in the displayed key order, the aggregate computed from exactly that group's rows that pass the filter, with the documented treatment of invalid values and empty groups. The key columns of the result name those groups. Asking for the result in the original row shape gives each row its own group's value, and the data and keys passed in are unchanged.",
     "for all key columns, data columns with invalid values, filters, ordering choices and options",
     "Group/row alignment depends on key order, filters, empty groups and unsorted keys jointly; tests sample a few fixed datasets.",
     ["rt_groupbyops.py", "rt_groupby.py", "rt_categorical.py", "rt_groupbykeys.py", "rt_groupbynumba.py"],
     [("GroupByOps", "rt_groupbyops.py"), ("GroupBy._calculate_all", "rt_groupby.py"), ("Categorical._calculate_all", "rt_categorical.py")])
prop("R07", "Per-group row-shaped operations see only the row's own group",
     "Cumulative, rolling, shifted, differenced, filled and exponentially decayed operations by group return one value per row, computed from that row's own group in row order only; rows of other groups never influence it. Rows that are filtered out or belong to no group are treated as documented and never leak another group's values. Options such as window length, period, decay rate, and reset points act per group.",
     "for all group layouts, data with invalid values, windows, periods and filters",
     "Interleaved groups with windows that cross group borders are easily got right on the tests' fixed layouts while wrong on others.",
     ["rt_groupbyops.py", "rt_groupbynumba.py", "rt_groupby.py", "rt_categorical.py"],
     [("cumsum, cumprod, rolling_*, shift, diff, rank, fill_*, ema_*", "rt_groupbyops.py"), ("nb_* kernels", "rt_groupbynumba.py")])
prop("R20", "Fill, cumulative and neighbour operations follow the row order exactly",
     "Forward/backward fill (with limits), cumulative sum, product, minimum and maximum (with or without skipping invalid values), shifting, differencing, neighbour comparison, rolling windows and decays over a column, plain or grouped, give at each row the value defined by the rows up to that point. Invalid values propagate or are skipped as requested and never turn into ordinary numbers. Inputs are unchanged unless an in-place form was asked for.",
     "for all columns with invalid values, all dtypes, limits, groups and options",
     "Runs of invalid values at borders, limits, and group changes combine; tests have few fixed sequences.",
     ["rt_fastarraynumba.py", "rt_fastarray.py", "rt_numpy.py", "rt_groupbyops.py"],
     [("fill_forward, fill_backward and their jitted kernels", "rt_fastarraynumba.py"), ("cummin, cummax", "rt_fastarray.py")])
prop("R05", "A categorical always shows each row's own value",
     "Turning one or more columns into a categorical and back gives every row its original value (filtered rows the invalid value), whatever the construction: from values, from codes and categories, from a code dictionary, with a filter, base index 0 or 1, ordered or not. Selecting, slicing, copying, assigning, mapping, shrinking, dropping unused categories, merging repeated categories, shifting, converting to a single key, stacking and aligning never attach a different value to a row and leave their source unchanged. Comparisons and membership tests on a categorical equal the same test on the row values, with filtered rows equal to nothing.",
     "for all row values, codes, filters, selections and comparison operands",
     "A wrong base-index or code offset shifts values silently; the tests fix a few categoricals, mostly base 1 without filters.",
     ["rt_categorical.py", "rt_grouping.py", "rt_numpy.py", "rt_hstack.py"],
     [("Categorical.__new__, expand_array, map, shrink, set_valid, copy, _categorical_compare_check, __setitem__", "rt_categorical.py"), ("Categories.get_category_index", "rt_categorical.py"), ("merge_cats, hstack_groupings, Grouping.shrink, Grouping.regroup", "rt_grouping.py")])
prop("R08", "Calendar fields of dates and timestamps follow the Gregorian calendar",
     "Year, month, day of month, day of year, day of week, weekend and weekday tests, leap-year tests, start of month and week, compact yyyymmdd form and seconds since the epoch of every date (and, for timestamps shown in UTC, every calendar and clock field) equal those of the proleptic Gregorian calendar for that day or instant. Clock fields of a timestamp recombine exactly to the time of day. A missing date or time has missing fields and is neither a weekday nor a weekend.",
     "for all valid and missing dates and instants from 1970 on",
     "Errors at month, year and century borders or for one missing value show on few days; tests check a handful of dates.",
     ["rt_datetime.py"],
     [("Date.year, month, day_of_month, day_of_week, start_of_month, yyyymmdd, ...", "rt_datetime.py"), ("DateTimeBase/DateTimeNano fields", "rt_datetime.py")])
prop("R09", "Local time fields follow the time zone's rules at every instant",
     "For a timestamp displayed in a zone, every calendar and clock field, the midnight of its day, the offset and the daylight-saving flag are those of local time in that zone at that instant, including right at and around each daylight-saving change and for zones without daylight saving or with half-hour offsets. Building a timestamp from local times and reading it back gives the same local times outside the skipped and repeated hours. Changing the display zone never changes the instant.",
     "for all instants within the years the zone tables cover, in each supported zone",
     "Wrong answers show only within an hour of one of some 140 changes per zone, or in one zone; tests sample few instants.",
     ["rt_datetime.py", "rt_timezone.py"],
     [("TimeZone._tz_offset, _is_dst, fix_dst, _mask_dst", "rt_timezone.py"), ("DateTimeNano construction and fields", "rt_datetime.py")])
prop("R10", "Date and time arithmetic is exact, typed, and keeps missing values missing",
     "Adding and subtracting dates, timestamps, date spans and time spans gives the exact value in the documented result type, for equal lengths or one-element operands, and a result row is missing exactly when one of its operands is; meaningless combinations are rejected. Comparisons agree with the order of the values and a missing operand is unequal to and in no order with anything; shifting, differencing, minima, stacking, selection, scaling and unit conversion keep type and values. Resampling, ranges and clock-time buckets assign every time to the interval that contains it.",
     "for all operand values including missing ones, lengths, operand types and orders",
     "The result type/unit/missing-value logic is a product of operand types, order, lengths and missing values, sampled at a few points by tests.",
     ["rt_datetime.py"],
     [("Date, DateSpan, DateTimeNano, TimeSpan operators", "rt_datetime.py"), ("_apply_inv_mask", "rt_datetime.py"), ("resample, cut_time, Date.range", "rt_datetime.py")])
prop("R11", "String operations equal the same operation on each element's text",
     "Case change, trimming, prefix, suffix, substring and regular-expression search, position, length, replacement, extraction and joining over a string column give, row by row, what the definition gives for that row's own text, for byte and unicode columns alike and regardless of the width the column is stored in. Slicing and substring bounds may be negative, missing or given per row. A categorical column gives each row the same answer as the plain column, with missing rows missing.",
     "for all texts within the widths, patterns, slice bounds, storage kinds and category layouts",
     "Answers depend on widths, terminators, pattern overlap and the position of matches; tests use a few fixed words.",
     ["rt_str.py", "rt_fastarray.py", "rt_numpy.py", "rt_utils.py"],
     [("FAString and CatString", "rt_str.py"), ("str_match jitted kernels", "rt_str.py"), ("str_append, FastArray.replace string helpers", "rt_fastarray.py")])
prop("R13", "Columns stay attached to their names through any history of operations",
     "A table or struct behaves as an ordered mapping from names to columns: after any sequence of setting, replacing, deleting, renaming, moving, swapping, remapping, prefixing and selecting columns, names, their order, their number and each column's values are those the sequence defines. Rejected operations (duplicate or missing names, wrong row counts) leave the table unchanged. Copies and selections are independent of their source, and per-column settings such as labels and sort order follow their columns.",
     "for all histories of column operations up to the bound, all names and column contents",
     "Defects appear only after particular sequences (renaming onto a moved column, deleting a sort key), which fixed tests rarely chain.",
     ["rt_struct.py", "rt_dataset.py", "rt_itemcontainer.py"],
     [("ItemContainer", "rt_itemcontainer.py"), ("Struct.col_* and Struct._set_*", "rt_struct.py"), ("Dataset column setters", "rt_dataset.py")], over=("inputs", "histories"))
prop("R14", "Stacking and concatenation keep every row of every input, in order",
     "Stacking arrays, text columns, categoricals, dates, structs and datasets gives the rows of the inputs one after another with their own values, in a type that holds them all; rows of an input that lacks a column get that column's invalid value, and lengths (also of empty inputs) add up; a partitioned table gives back each part's own rows under its name. Categoricals of different categories or code dictionaries show each row's own category afterwards, and contradictory dictionaries are rejected. Joining tables column-wise keeps every column, resolves duplicate names as requested and rejects unequal lengths.",
     "for all contents and lengths of the inputs, type combinations, missing columns, category layouts and options",
     "Failures need particular combinations of dtypes, gaps, lengths near type limits or category overlaps.",
     ["rt_hstack.py", "rt_grouping.py", "rt_numpy.py", "rt_dataset.py", "rt_struct.py", "rt_categorical.py"],
     [("hstack_any, _hstack_categorical, stack_rows", "rt_hstack.py"), ("merge_cats, hstack_groupings", "rt_grouping.py"), ("concat_rows, concat_columns", "rt_dataset.py")])
prop("R16", "Reductions and table arithmetic follow each column's valid values",
     "Sum, mean, minimum, maximum, positions of extremes, any/all, variance and deviation of a column, and their invalid-skipping and filtered forms, equal the value computed from the cells (invalid-skipping: from the valid cells only; otherwise an invalid cell makes the result invalid), whether the column is contiguous, stepped or reversed, and by column or by row for tables. Arithmetic, comparison and choice between a table or column and a scalar, row, column or table act cell by cell; masks, replacing missing values and type conversion keep every other cell, and keep missing cells missing.",
     "for all column contents with invalid values, dtypes, strides, filters, operands and options",
     "Each dtype has its own sentinel and code path, and strides or filters select further paths; tests sample few combinations.",
     ["rt_fastarray.py", "rt_dataset.py", "rt_numpy.py", "rt_ledger.py", "rt_fastarraynumba.py"],
     [("FastArray._reduce_check, _fa_filter_wrapper, __array_ufunc__ reduce", "rt_fastarray.py"), ("Dataset.reduce, apply_cols, fillna, astype", "rt_dataset.py"), ("MathLedger._REDUCE", "rt_ledger.py")])
prop("R23", "Reshaping puts every cell in its own row and column",
     "Turning a table into rows (tuples, lists, dictionaries, structs, one-row tables) and building a table from rows, tagged rows, ragged rows or ragged dictionaries keeps each value at its row and column, fills gaps with the requested fill value and leaves the caller's data alone. Melting, pivoting, transposing, matrix views and one-hot encoding put each source cell at the position its labels define, filtered-out rows do not take part, and duplicate labels are rejected.",
     "for all cell contents, labels, filters, ragged lengths and fill values",
     "Misplaced cells need coinciding labels, ragged or empty rows, or filters that fixed tables rarely have.",
     ["rt_dataset.py", "rt_struct.py", "rt_grouping.py"],
     [("asrows, from_rows, from_tagged_rows, from_jagged_rows, from_jagged_dict", "rt_dataset.py"), ("melt, pivot, transpose, imatrix_make, one_hot_encode", "rt_dataset.py"), ("combine2groups", "rt_grouping.py")])
prop("R17", "Binning and quantiles place each value by the edges and ranks",
     "Cutting a column into bins gives each valid value the number and label of the bin whose edges enclose it (right edge included, the first bin closed on both sides), and no bin to invalid, filtered-out or out-of-range values; asking for a number of bins divides the range of the valid values evenly. Quantile binning uses as edges the linearly interpolated quantiles of the valid, unfiltered values. Quantiles of columns and tables and the summary statistics are computed from all valid values, for every dtype.",
     "for all column contents with invalid values, dtypes, strides, filters, edges and quantile lists",
     "Whether an edge, a tie or an invalid value lands in the right bin depends on dtype and position; tests check printed labels of a few arrays.",
     ["rt_bin.py", "rt_utils.py", "rt_dataset.py"],
     [("cut, qcut, quantile, _bins_to_cuts_new", "rt_bin.py"), ("quantile, describe_helper, interpolate", "rt_utils.py")])
prop("R19", "Two-way accumulations put each row in exactly one cell and its margins",
     "A two-way table over a row category and a column category shows, in the cell where a row value and a column value meet, the requested aggregate of exactly the rows having both values and passing the filters; rows filtered out on either axis appear in no cell. The margins show the same aggregate over a whole displayed row, column, or table, aligned with its label in whatever order the labels are displayed. Ratio and percentage tables are the quotients of the corresponding cells and margins, and the inputs are unchanged.",
     "for all row and column keys, data with invalid values, row filters, per-axis filters and label orders",
     "Cell positions depend on both label orders, filters and empty combinations at once; tests check a few fixed tables.",
     ["rt_accum2.py", "rt_accumtable.py", "rt_groupbyops.py"],
     [("Accum2", "rt_accum2.py"), ("accum_ratio, accum_ratiop, accum_cols", "rt_accumtable.py")])
prop("R18", "Saved tables load back exactly as they were saved",
     "Saving a dataset, struct or array to the file format and loading it back returns the same names in the same order with the same values and types, including categorical codes, categories and ordering, date and time columns with their time zone, nested containers and sort settings. Loading a subset of columns or filtered rows returns exactly that part. Loading several files stacked into one returns every row of each file in file order, with columns a file lacks filled as missing and each categorical row keeping its own category.",
     "for all column contents, column kinds, nesting, selections and numbers of stacked files within the bounds",
     "What is written and what the loader rebuilds is decided by per-type metadata, name flags and cut-offs in two distant places; tests save a few fixed tables.",
     ["rt_sds.py", "rt_struct.py", "rt_categorical.py", "rt_datetime.py", "rt_dataset.py"],
     [("save_sds, load_sds, _stack_sds_files, _multistack_onefile", "rt_sds.py"), ("_build_sds_meta_data, _from_sds_onefile, _load_from_sds_meta_data", "rt_struct.py"), ("Categorical._build_sds_meta_data, sds_stack, hstack", "rt_categorical.py"), ("DateTimeNano/Date metadata", "rt_datetime.py")],
     note="The binary file codec is replaced by an in-memory contract (names, flags, dtypes, shapes, bytes); the Python code deciding what is written and how it is rebuilt is executed symbolically.")
na("R21", "Results do not depend on the number of worker threads",
   "Every operation returns the same result whether it runs on one thread or on many, and however the work is split between them.",
   "for all thread counts, work splits and interleavings",
   "Tests run with one thread configuration on small arrays that are never split.",
   ["rt_numpy.py", "rt_fastarray.py"], [("work splitting inside the compiled extension", "rt_fastarray.py")],
   "the threads, the work queue and the kernels are inside the compiled extension riptide_cpp, whose source is not in this repository; there is nothing to encode", over=("schedules",))
na("R22", "Printed tables show the values they stand for",
   "The text and HTML forms of arrays and tables show each shown value at its row and column, formatted by the display settings, and say what was left out.",
   "for all tables, widths and display settings",
   "Tests compare a few fixed renderings.",
   ["rt_display.py"], [("DisplayTable and its formatters", "rt_display.py")],
   "rendering turns numbers into text through the C formatting of Python floats and integers, which has no encoding here; a symbolic value is fixed as soon as it is printed, so the solver would decide nothing", over=("inputs", "configurations"))
na("R24", "Conversion to and from pandas and arrow keeps every value",
   "Turning a table into a pandas or arrow table and back keeps names, values, types and missing values.",
   "for all tables", "Tests convert fixed tables.",
   ["rt_dataset.py", "rt_fastarray.py", "rt_categorical.py"], [("to_pandas, from_pandas, to_arrow, from_arrow", "rt_dataset.py")],
   "the conversions hand the data to the compiled cores of pandas and pyarrow, which the encoding cannot enter and which define the result")
na("R25", "A crash while saving never damages a file that was complete",
   "When a save is interrupted, files that were complete before still load as they were, and a partly written file is rejected on load.",
   "for all crash points of a save", "Tests do not interrupt saves.",
   ["rt_sds.py"], [("save_sds and the file writer of the compiled extension", "rt_sds.py")],
   "every write, its order, the file format and its checks on load are in the compiled extension; the Python side issues a single call, so there are no crash points to encode", over=("crash_points",))
na("R26", "Text dates and times parse to the instant they spell",
   "Parsing a column of text dates or times in the accepted formats gives the instant each text spells, and an invalid time for anything else.",
   "for all texts of the accepted formats", "Tests parse fixed texts.",
   ["rt_datetime.py"], [("datestring_to_nano, datetimestring_to_nano, timestring_to_nano, strptime_to_nano", "rt_datetime.py")],
   "the scanner is compiled code without source here; the Python wrappers only pass the column on")
