#!/usr/bin/env python3
# Writes /verif/properties.jsonl. The properties are kept here because JSON lines are hard to edit.
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,state,mech,observe):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
      "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe,"hook_needed":None}})

T=["rows","colNames","colTypes","colNamesMap"]
TBL=("Table","rows of interface cells with parallel column name and type slices and a name-to-index map","gotables.go: type Table")

p("C01","Typed cell access is faithful",
 "A value stored in an existing cell through a typed or untyped setter of the column's type is returned unchanged by the matching getter, by column name and by column index alike, and every other cell of the table keeps its value. A setter or getter succeeds exactly when the table, row and column exist and the column has (or is an alias of) the type asked for; otherwise it returns an error, and its Must variant panics.",
 ["inputs","histories"],"every table, every column type, every column name or index, every row index (negative and out of range included), every value",
 "The generated helper tests set and read one cell of one table per type; they cannot cover every table shape, index and value, nor show that no other cell moves.",
 ["helpers.go","gotables.go","generate.go"],[TBL],
 [("Set<type>, Get<type>, …ByColIndex, …MustSet, …MustGet","helpers.go"),("SetVal, GetVal and ByColIndex","gotables.go")],
 ["return values of the getters after a setter","all cells read back through the getters"])

p("C02","A failing cell, row or column operation leaves no trace",
 "When a single-step operation on a table (setting a cell, appending or deleting rows or a column, renaming, swapping or reordering columns) returns an error, every observable part of the table is exactly as it was before the call: its name, columns, types, rows, cells, sort keys and shape.",
 ["inputs","histories"],"every table and every argument of every single-step mutating operation, valid or not",
 "The tests check that an error comes back for a handful of bad arguments; they do not compare the whole table before and after, for every bad argument and state.",
 ["gotables.go","helpers.go"],[TBL],
 [("argument checks before the first write","gotables.go, helpers.go")],["a full snapshot of the table before and after a failing call"])

p("C03","Every operation keeps a table well formed",
 "Whatever sequence of operations is applied to it, a table has one type and one unique name per column, name lookup agrees with column position, every row has exactly one cell per column, every cell holds a value of its column's type, and distinct rows never share storage.",
 ["histories","inputs"],"every history of constructor and mutator calls with any arguments",
 "The tests run short fixed sequences and look at selected cells; the guarantee is over all sequences, and breaks in one mutator only show up in another one later.",
 ["gotables.go","helpers.go","sort.go","merge.go"],[TBL,("colNamesMap","inverse of colNames","gotables.go")],
 [("every mutator updates names, types, map and rows together","gotables.go"),("IsValidTable","gotables.go")],["IsValidTable and reading back every cell by name and by index"])

p("C04","Appending and deleting rows touches only those rows",
 "Appending rows adds exactly that many rows at the end, each cell holding the zero value of its column's type; deleting a row or an inclusive range of rows removes exactly those rows and moves the later rows up. All remaining rows keep their order and cells, and out-of-range or reversed ranges are rejected.",
 ["inputs","histories"],"every table, every row count and every range, including ranges that end at the last row",
 "Tests append and delete a few rows of small tables; a slip for a particular range, or a shared backing array, shows only on other sizes.",
 ["gotables.go"],[TBL],[("AppendRow, AppendRows, DeleteRow, DeleteRows, DeleteRowsAll","gotables.go")],["row count and every cell after the call"])

p("C05","Appending, deleting and renaming columns touches only that column",
 "Appending a column adds it last with zero values in every row; deleting a column removes it, its cells and any sort key on it; renaming a column changes its name and any sort key on it. Everything else in the table is unchanged, names stay unique and valid, and invalid names, types or unknown columns are rejected.",
 ["inputs","histories"],"every table with any number of rows and columns, every position, name and type",
 "Tests do this for one or two columns of small tables; index bookkeeping after a deletion in the middle and its interplay with sort keys are not covered.",
 ["gotables.go","sort.go"],[TBL],[("AppendCol, DeleteCol, RenameCol and ByColIndex variants","gotables.go")],["column names, types, index lookup, sort keys and all cells after the call"])

p("C06","Reordering, swapping and reversing moves whole columns or rows",
 "Reordering or swapping columns permutes names, types and cells of every row by the same permutation, and reversing a table reverses its rows; no cell is lost, duplicated or detached from its column or row. A request that is not a permutation of the existing columns is rejected.",
 ["inputs","histories"],"every table, every permutation and every malformed column list",
 "Tests reorder one small table; they cannot enumerate permutations together with table shapes and malformed lists.",
 ["gotables.go","sort.go"],[TBL],[("ReorderColsByColIndex, ReorderCols, SwapCols, Reverse, OrderColsBySortKeys, NewTableReorderCols","gotables.go, sort.go")],["all cells by column name before and after"])

p("C07","Comparison of cell values is a strict total preorder per type",
 "For every sortable column type the comparison of two values is antisymmetric and transitive, is the usual order of that type (numbers by value, with NaN as the smallest and equal to itself; false before true; strings ignoring case, ties by the bytes), and the comparison of two rows is the lexicographic combination over the sort keys in order.",
 ["inputs"],"every pair and triple of values of every sortable type; every list of sort keys",
 "Transitivity and antisymmetry quantify over pairs and triples of values; tests compare a few pairs of a few types.",
 ["sort.go"],[("compareFuncs","comparison function per column type","sort.go"),("sortKeys","ordered keys","sort.go")],[("compare_<type>, CompareRows","sort.go")],["sign of comparison results"])

p("C08","Sorting orders the rows by the keys and keeps every row",
 "After a successful sort the rows are a permutation of the rows before, whole rows intact, and every adjacent pair is in order under the sort keys taken in turn, with reversed keys descending. A sort that fails changes nothing.",
 ["inputs","histories"],"every table, every sequence of sort keys of every type and direction",
 "Tests sort a few fixed tables; order must hold for every multiset of values, ties and key lists.",
 ["sort.go"],[("sortKeys","ordered keys with direction","sort.go")],[("Sort, SortSimple, SortByKeys","sort.go")],["rows before and after"])

p("C09","Search finds exactly the matching rows of a sorted table",
 "On a table sorted by its keys, searching for a tuple of key values returns the first, the last, or the full range of rows whose key cells equal the values, and returns an error with no row when there is none.",
 ["inputs","histories"],"every sorted table, all key lists and directions, every tuple of search values, present or absent",
 "Binary search fails at particular positions and counts; tests look for a few values in a few tables.",
 ["sort.go"],[("sortKeys","ordered keys with direction","sort.go")],[("Search, SearchFirst, SearchLast, SearchRange","sort.go")],["row indexes compared with a linear scan"])

p("C10","Merging and unique-sorting keep one row per key",
 "Merging two tables with the same sort keys yields a table sorted by the keys, with the union of their columns and exactly one row for each distinct key value, whose cells come from the input rows of that key; when one of them has no rows the result is a new table of the other's rows, sorted. Unique-sorting a table yields one row per distinct key, and neither operation changes the rows of its inputs.",
 ["inputs"],"every pair of tables with agreeing keys, including overlaps, missing columns and empty tables",
 "Tests merge two or three fixed pairs; combinations of duplicates, zero cells and column layouts are unbounded.",
 ["merge.go","sort.go"],[TBL],[("Merge, SortUnique","merge.go, sort.go")],["rows and columns of the result"])

p("C11","Table equality means equal content",
 "Comparing two tables reports equality exactly when they have the same name, the same columns by name and type (in any order), the same number of rows and, row by row, equal cells in the columns of the same name; nested tables are compared the same way. Comparing changes neither table, and two table sets are equal exactly when they hold equal tables in the same order.",
 ["inputs"],"every pair of tables, in particular pairs that differ in one cell, name, type, row or column",
 "Tests compare a few pairs; a missed difference at one position or type needs every position and type.",
 ["gotables.go"],[TBL],[("Equals","gotables.go")],["result and error of the comparison"])

p("C12","A copy is equal to and independent of the original",
 "Copying a table, or building a new one from a range of its rows, gives the same columns and types and the same cells in the same order; later changing cells, rows or columns of either one never shows in the other.",
 ["inputs","histories"],"every table, every row range, and every later mutation of either table",
 "Shared backing arrays show only under particular later histories; tests check that the copy looks equal.",
 ["gotables.go"],[TBL],[("Copy, NewTableFromRows, NewTableFromRowsBySearch","gotables.go")],["both tables after later mutations"])

p("C13","A table set keeps unique names and finds exactly its tables",
 "A table set never holds two tables of one name through its own operations, looks a table up by name or index exactly when it is there, and appending or deleting a table changes exactly that entry and keeps the order of the others.",
 ["histories","inputs"],"every history of appends, deletes and lookups with any names and indexes",
 "Tests use sets of one to three tables in fixed order.",
 ["gotables.go"],[("TableSet","name and ordered list of tables","gotables.go: type TableSet")],[("AppendTable, DeleteTable, GetTable, HasTable, TableIndex","gotables.go")],["table count, names, identity of returned tables"])

p("C14","An integer literal is accepted exactly when its type can hold it",
 "When a table is parsed from text, a decimal integer (an optional minus and digits without a leading zero) in a column of an integer type yields exactly that number when it lies in the type's range and otherwise an error; it is never truncated or wrapped.",
 ["inputs"],"every integer literal and each of the integer column types",
 "Boundaries of ten integer types and values between them are unbounded; tests try selected ones.",
 ["parser.go","gotables.go"],[],[("range checks of the row parser","parser.go: getRowSlice")],["parsed cell or error"])

p("C15","Names are identifiers and never type names",
 "A table or column name is accepted exactly when it is a non-empty run of ASCII letters, digits and underscores that does not begin with a digit and is not the name of a column type; a column type is accepted exactly when it is one of the supported types.",
 ["inputs"],"every string, including non-ASCII and control characters",
 "The set of strings is infinite; tests try about a dozen.",
 ["parser.go","gotables.go"],[],[("IsValidTableName, IsValidColName, IsValidColType","parser.go, gotables.go")],["whether the constructor or renaming succeeds"])

p("C16","Zero and NaN fillers write exactly the cells asked for",
 "Setting a cell, a row or a column to its zero value stores the zero value of the column's type, and setting float cells to NaN stores NaN in float cells only; no other cell changes and bad positions are errors.",
 ["inputs"],"every table, column type and position",
 "Tests fill one table and read some cells; types times positions times untouched neighbours are not enumerated.",
 ["gotables.go","helpers.go"],[TBL],[("SetCellToZeroValue…, SetRowCellsToZeroValue, SetColCellsToZeroValue…, Set…FloatCell(s)ToNaN…","gotables.go, helpers.go")],["all cells after the call"])

p("C17","Table operations report bad arguments as errors, never by crashing",
 "Apart from the Must variants, no operation on a well-formed table panics: unknown columns, out-of-range indexes, wrong types, empty tables and nil receivers come back as errors.",
 ["inputs","histories"],"every well-formed table, every operation, every argument",
 "Absence of a panic is universal over arguments; tests pass a handful of bad ones.",
 ["gotables.go","helpers.go","sort.go","merge.go"],[TBL],[("bounds and nil checks at the head of each operation","all files")],["no panic escapes"])

p("C18","Binary export and import restore the table",
 "Encoding a table or table set in the binary format and decoding it gives tables with the same name, columns, types, cells, sort keys and shape, for all column types but time and table, which the format does not support.",
 ["inputs"],"every table and table set without nested tables or times",
 "Tests encode two or three tables.",
 ["gob.go"],[("TableExported","exported image of a table","gob.go")],[("GobEncode, GobDecodeTable, GobDecodeTableSet, exportTable, importTable","gob.go")],["the decoded table compared with the original"])

p("C19","Nested tables form trees that are walked completely",
 "A table that contains itself through its cells, directly or at any depth, is reported as circular, and a table whose nested tables form a tree is not; walking a tree of tables visits every table and every cell of it exactly once, parents before children.",
 ["inputs","histories"],"every finite nesting of tables, every depth and every cell position",
 "Cycles of every length at every position cannot be sampled; tests use two or three shapes.",
 ["nest.go","tree.go"],[("parentTable","link from a nested table to its holder","gotables.go")],[("isCircularReference, Walk","nest.go, tree.go")],["the reported verdict, the sequence of visits"])

p("C20","Appending from another table copies what it says",
 "On success, appending rows of another table adds copies of exactly those rows, in order, and appending its columns adds exactly the columns missing; the source table is unchanged and later changes to one never show in the other.",
 ["inputs","histories"],"every pair of tables, every row range, and later mutations of either",
 "Aliasing of rows shows only under later mutation; tests check cell values once.",
 ["gotables.go"],[TBL],[("AppendRowsFromTable, AppendColsFromTable","gotables.go")],["both tables, then both again after a mutation"])

p("C21","Writing a table as text and reading it back restores it",
 "Printing a table or table set, in any of the text forms, and parsing the text gives tables with the same names, columns, types and cells, for every value the text format can express: all but infinite floats, and nested tables, of which only the name is written. Sort keys are not part of the text.",
 ["inputs"],"every table whose cells are expressible in the text format",
 "Quoting, number formatting and padding interact over all strings and numbers.",
 ["parser.go","gotables.go"],[],[("String, NewTableFromString","gotables.go, parser.go")],["the parsed table compared with the original"])

p("C22","Writing a table as JSON and reading it back restores it",
 "Encoding a table or table set as JSON and decoding it gives tables with the same names, columns, types and cells, nested tables included, for every cell JSON can express: valid UTF-8 strings, finite floats, times of the years 1 to 9999, and all integers exactly.",
 ["inputs"],"every table whose cells JSON can express, every integer of every size included",
 "Precision and escaping defects depend on particular values.",
 ["json.go"],[],[("GetTableAsJSON, NewTableFromJSON","json.go")],["the decoded table compared with the original"])

p("C23","Writing a table as YAML and reading it back restores it",
 "Encoding a table set as YAML and decoding it gives tables with the same names, columns, types and cells, nested tables included, for every cell YAML can express; negative zero reads back as zero.",
 ["inputs"],"every table whose cells YAML can express",
 "Conversions depend on particular values and types.",
 ["yaml.go"],[],[("YAML export and import","yaml.go")],["the decoded table compared with the original"])

p("C24","CSV output has one record per row and one field per cell",
 "Writing a table as comma-separated values produces a header of the column names and one record per row whose fields are the cells in column order.",
 ["inputs"],"every table and every cell text, including commas, quotes and newlines",
 "Quoting depends on particular strings.",
 ["gotables.go"],[],[("GetTableAsCSV","gotables.go")],["the records read back"])

p("C25","Sort keys always name existing columns, in the order given",
 "After setting, appending, reversing or deleting sort keys the key list holds exactly the requested columns in order with their directions, each naming an existing column of a sortable type; keys on unknown columns are rejected, and cells and columns never change.",
 ["inputs","histories"],"every table, every list of keys, and every later change of the columns",
 "Tests set a few keys on a few tables and do not relate keys to later column changes.",
 ["sort.go"],[("sortKeys","ordered keys with type, direction and comparison","sort.go")],[("SetSortKeys, AppendSortKey, DeleteSortKey, SetSortKeysReverse, SetSortKeysFromTable","sort.go")],["the key list read back"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
for x in P:
    assert len(x["title"])<=80,x["title"]
