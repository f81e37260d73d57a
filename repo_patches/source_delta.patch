From ecc592d2382c4228512603119110d0cde055f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 01/34] fix: Set<type>ByColIndex returns an error for a
 colIndex out of range

All 20 Set<type>ByColIndex methods indexed table.colTypes without the range
check their Get<type>ByColIndex counterparts (and their own comment) promise,
so a colIndex out of range panicked instead of returning an error.
---
 helpers.go | 100 ++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 80 insertions(+), 20 deletions(-)

diff --git a/helpers.go b/helpers.go
index 83fc552..713b2d2 100644
--- a/helpers.go
+++ b/helpers.go
@@ -969,7 +969,10 @@ func (table *Table) SetByteSliceByColIndex(colIndex int, rowIndex int, newVal []
 			UtilFuncName(), table.Name(), colIndex)
 	}
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1010,7 +1013,10 @@ func (table *Table) SetUint8SliceByColIndex(colIndex int, rowIndex int, newVal [
 			UtilFuncName(), table.Name(), colIndex)
 	}
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1045,7 +1051,10 @@ func (table *Table) SetBoolByColIndex(colIndex int, rowIndex int, newVal bool) e
 
 	const valType string = "bool"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1080,7 +1089,10 @@ func (table *Table) SetByteByColIndex(colIndex int, rowIndex int, newVal byte) e
 
 	const valType string = "byte"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1115,7 +1127,10 @@ func (table *Table) SetFloat32ByColIndex(colIndex int, rowIndex int, newVal floa
 
 	const valType string = "float32"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1150,7 +1165,10 @@ func (table *Table) SetFloat64ByColIndex(colIndex int, rowIndex int, newVal floa
 
 	const valType string = "float64"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1185,7 +1203,10 @@ func (table *Table) SetIntByColIndex(colIndex int, rowIndex int, newVal int) err
 
 	const valType string = "int"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1220,7 +1241,10 @@ func (table *Table) SetInt16ByColIndex(colIndex int, rowIndex int, newVal int16)
 
 	const valType string = "int16"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1255,7 +1279,10 @@ func (table *Table) SetInt32ByColIndex(colIndex int, rowIndex int, newVal int32)
 
 	const valType string = "int32"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1290,7 +1317,10 @@ func (table *Table) SetInt64ByColIndex(colIndex int, rowIndex int, newVal int64)
 
 	const valType string = "int64"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1325,7 +1355,10 @@ func (table *Table) SetInt8ByColIndex(colIndex int, rowIndex int, newVal int8) e
 
 	const valType string = "int8"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1360,7 +1393,10 @@ func (table *Table) SetRuneByColIndex(colIndex int, rowIndex int, newVal rune) e
 
 	const valType string = "rune"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1395,7 +1431,10 @@ func (table *Table) SetStringByColIndex(colIndex int, rowIndex int, newVal strin
 
 	const valType string = "string"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1430,7 +1469,10 @@ func (table *Table) SetUintByColIndex(colIndex int, rowIndex int, newVal uint) e
 
 	const valType string = "uint"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1465,7 +1507,10 @@ func (table *Table) SetUint16ByColIndex(colIndex int, rowIndex int, newVal uint1
 
 	const valType string = "uint16"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1500,7 +1545,10 @@ func (table *Table) SetUint32ByColIndex(colIndex int, rowIndex int, newVal uint3
 
 	const valType string = "uint32"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1535,7 +1583,10 @@ func (table *Table) SetUint64ByColIndex(colIndex int, rowIndex int, newVal uint6
 
 	const valType string = "uint64"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1570,7 +1621,10 @@ func (table *Table) SetUint8ByColIndex(colIndex int, rowIndex int, newVal uint8)
 
 	const valType string = "uint8"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1614,7 +1668,10 @@ func (table *Table) SetTableByColIndex(colIndex int, rowIndex int, newVal *Table
 	// This may help with reporting errors.
 	newVal.parentTable = table
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1649,7 +1706,10 @@ func (table *Table) SetTimeByColIndex(colIndex int, rowIndex int, newVal time.Ti
 
 	const valType string = "time.Time"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
-- 
2.43.0


From ef86e9fc8ed18e321d36b8d1a0d12b0ed840fa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 02/34] fix: SetCellToZeroValue and SetRowCellsToZeroValue
 return an error for an index out of range

They indexed the row and column slices without a range check, so an index out
of range panicked instead of returning an error.
---
 helpers.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/helpers.go b/helpers.go
index 713b2d2..0110024 100644
--- a/helpers.go
+++ b/helpers.go
@@ -4915,6 +4915,11 @@ func (table *Table) SetCellToZeroValueByColIndex(colIndex int, rowIndex int) err
 		return fmt.Errorf("table.%s: table is <nil>", UtilFuncName())
 	}
 
+	hasCell, err := table.HasCellByColIndex(colIndex, rowIndex)
+	if !hasCell {
+		return err
+	}
+
 	var colType = table.colTypes[colIndex]
 
 	switch colType {
@@ -4997,6 +5002,11 @@ func (table *Table) SetRowCellsToZeroValue(rowIndex int) error {
 		return fmt.Errorf("table.%s: table is an unnamed NilTable. Call table.SetName() to un-Nil it", UtilFuncName())
 	}
 
+	hasRow, err := table.HasRow(rowIndex)
+	if !hasRow {
+		return err
+	}
+
 	for colIndex := 0; colIndex < table.ColCount(); colIndex++ {
 		var colType string = table.colTypes[colIndex]
 		switch colType {
-- 
2.43.0


From cab20fcceee1d1c6caa0de319498c712ff6977a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 03/34] fix: SetTable and SetTableByColIndex leave the value
 alone when they fail

The parent link of newVal was set before the column and row were checked, so a
rejected call re-parented a table that stayed where it was.
---
 helpers.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/helpers.go b/helpers.go
index 0110024..5c471fa 100644
--- a/helpers.go
+++ b/helpers.go
@@ -868,9 +868,6 @@ func (table *Table) SetTable(colName string, rowIndex int, newVal *Table) error
 			UtilFuncNameNoParens(), colName, rowIndex, table.Name(), colName)
 	}
 
-	// This may help with reporting errors.
-	newVal.parentTable = table
-
 	colType, err := table.ColType(colName)
 	if err != nil {
 		return err
@@ -898,6 +895,9 @@ func (table *Table) SetTable(colName string, rowIndex int, newVal *Table) error
 	// Note: This essentially inlines SetValByColIndex(): an average 30% speedup.
 	table.rows[rowIndex][colIndex] = newVal
 
+	// This may help with reporting errors.
+	newVal.parentTable = table
+
 	return nil
 }
 
@@ -1665,9 +1665,6 @@ func (table *Table) SetTableByColIndex(colIndex int, rowIndex int, newVal *Table
 			UtilFuncNameNoParens(), colIndex, rowIndex, table.Name(), colIndex)
 	}
 
-	// This may help with reporting errors.
-	newVal.parentTable = table
-
 	colType, err := table.ColTypeByColIndex(colIndex)
 	if err != nil {
 		return err
@@ -1690,6 +1687,9 @@ func (table *Table) SetTableByColIndex(colIndex int, rowIndex int, newVal *Table
 	// Note: This essentially inlines SetValByColIndex(): an average 5 times speedup.
 	table.rows[rowIndex][colIndex] = newVal
 
+	// This may help with reporting errors.
+	newVal.parentTable = table
+
 	return nil
 }
 
-- 
2.43.0


From 534b495e72b3db130aff2947ae1c45b9881e43e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 04/34] fix: a table or column name holds ASCII letters, digits
 and underscores only, as the parser requires

---
 parser.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 48847af..8067772 100644
--- a/parser.go
+++ b/parser.go
@@ -25,7 +25,6 @@ import (
 	"strconv"
 	"strings"
 	"time"
-	"unicode"
 )
 
 /*
@@ -807,18 +806,23 @@ func isValidName(name string) (bool, error) {
 	if len(name) == 0 {
 		return false, fmt.Errorf("%s: len(name) == 0", UtilFuncName())
 	}
-	if !unicode.IsLetter(rune(name[0])) && name[0] != '_' {
+	if !isNameLetter(name[0]) {
 		return false, fmt.Errorf("%s: invalid first char: %c (expecting letter or '_')", UtilFuncName(), name[0])
 	}
 	for i := 1; i < len(name); i++ {
-		if !unicode.IsLetter(rune(name[i])) && name[i] != '_' && !unicode.IsNumber(rune(name[i])) {
-			return false, fmt.Errorf("%s: invalid char: %c (expecting letter or '_' or number)", UtilFuncName(), name[0])
+		if !isNameLetter(name[i]) && !(name[i] >= '0' && name[i] <= '9') {
+			return false, fmt.Errorf("%s: invalid char: %c (expecting letter or '_' or number)", UtilFuncName(), name[i])
 		}
 	}
 
 	return true, nil
 }
 
+// The name characters accepted are the same as in namePattern: ASCII only. A byte of a multi-byte UTF-8 char is not a letter.
+func isNameLetter(c byte) bool {
+	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
+}
+
 // Note: The same validity rules apply to both table names and col names.
 func IsValidColName(colName string) (bool, error) {
 
-- 
2.43.0


From 25570e6be92788b12f22fda4eebf320c084c2a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 05/34] fix: SearchLast and SearchRange return an error for
 values before the first row

---
 sort.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sort.go b/sort.go
index 4f107b4..ef6de48 100644
--- a/sort.go
+++ b/sort.go
@@ -1052,7 +1052,8 @@ func (table *Table) searchByKeysLast(searchValues []interface{}) (int, error) {
 
 	// See logic at: https://golang.org/pkg/sort/#Search
 	// See Search() source code at: https://golang.org/src/sort/search.go?s=2247:2287#L49
-	if searchIndex < table.RowCount() && searchValuesMatchRowValues(table, searchValues, searchIndex) {
+	// Note: searchIndex is -1 if every row is beyond the search values.
+	if searchIndex >= 0 && searchIndex < table.RowCount() && searchValuesMatchRowValues(table, searchValues, searchIndex) {
 		return searchIndex, nil
 	} else {
 		return -1, fmt.Errorf("[%s].Search(%v) search values not in table: %v",
-- 
2.43.0


From 9d352c57048c4a7ef2559412a62ab6441a02f793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 06/34] fix: DeleteCol and RenameCol keep the sort keys in step
 with the columns

---
 gotables.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/gotables.go b/gotables.go
index a47e0fe..06d1f85 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1875,6 +1875,15 @@ func (table *Table) DeleteColByColIndex(colIndex int) error {
 		//		if isValidRow, err := table.IsValidRow(rowIndex); !isValidRow { where(fmt.Sprintf("%s\n", err)) }
 	}
 
+	// A sort key on the deleted col no longer refers to anything.
+	var sortKeys []sortKey = newSortKeys()
+	for _, key := range table.sortKeys {
+		if key.colName != colName {
+			sortKeys = append(sortKeys, key)
+		}
+	}
+	table.sortKeys = sortKeys
+
 	return nil
 }
 
@@ -2655,6 +2664,13 @@ func (table *Table) RenameCol(oldName string, newName string) error {
 	delete(table.colNamesMap, oldName)    // Delete the old one.
 	table.colNamesMap[newName] = colIndex // Add the new one.
 
+	// Rename col in sort keys.
+	for keyIndex := range table.sortKeys {
+		if table.sortKeys[keyIndex].colName == oldName {
+			table.sortKeys[keyIndex].colName = newName
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 7508c9af55c7d2198d4da45ca027231f5a25a6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 07/34] fix: OrderColsBySortKeys does not panic when a column
 is a sort key more than once

---
 sort.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sort.go b/sort.go
index ef6de48..755520c 100644
--- a/sort.go
+++ b/sort.go
@@ -856,19 +856,26 @@ func (table *Table) OrderColsBySortKeys() error {
 	}
 
 	var err error
-	var newOrder []string = make([]string, table.ColCount()) // List of new colNames.
+	var newOrder []string = make([]string, 0, table.ColCount()) // List of new colNames.
 	var key int
 
 	// Populate new order ...
 
-	// First slots with key col names.
+	// First slots with key col names. A col may be a sort key more than once, but it has only one slot.
 	for key = 0; key < table.SortKeyCount(); key++ {
 		keyName := table.sortKeys[key].colName
-		newOrder[key] = keyName
+		var duplicate bool
+		for _, colName := range newOrder {
+			if colName == keyName {
+				duplicate = true
+			}
+		}
+		if !duplicate {
+			newOrder = append(newOrder, keyName)
+		}
 	}
 
 	// Subsequent slots with non-key col names.
-	row := table.SortKeyCount()
 	for col := 0; col < table.ColCount(); col++ {
 		colName := table.colNames[col]
 		var isSortKey bool
@@ -877,8 +884,7 @@ func (table *Table) OrderColsBySortKeys() error {
 			return err
 		}
 		if !isSortKey {
-			newOrder[row] = colName
-			row++
+			newOrder = append(newOrder, colName)
 		}
 	}
 
-- 
2.43.0


From 6fc223b6943726cdcea9de8c952133a576294aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 08/34] fix: GobEncode does not panic for a table with sort
 keys, and decoding restores them

---
 gob.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gob.go b/gob.go
index 978b96b..4c95e45 100644
--- a/gob.go
+++ b/gob.go
@@ -68,7 +68,7 @@ func (table *Table) exportTable() (*TableExported, error) {
 		return nil, err
 	}
 
-	tableExported.SortKeys = []SortKeyExported{}
+	tableExported.SortKeys = make([]SortKeyExported, len(table.sortKeys))
 	for keyIndex, _ := range table.sortKeys {
 		tableExported.SortKeys[keyIndex] = SortKeyExported{}
 		tableExported.SortKeys[keyIndex].ColName = table.sortKeys[keyIndex].colName
@@ -131,13 +131,14 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 		return nil, err
 	}
 
-	table.sortKeys = []sortKey{}
+	table.sortKeys = make([]sortKey, len(tableExported.SortKeys))
 	for keyIndex, _ := range table.sortKeys {
 		table.sortKeys[keyIndex] = sortKey{}
 		table.sortKeys[keyIndex].colName = tableExported.SortKeys[keyIndex].ColName
 		table.sortKeys[keyIndex].colType = tableExported.SortKeys[keyIndex].ColType
 		table.sortKeys[keyIndex].reverse = tableExported.SortKeys[keyIndex].Reverse
-		table.sortKeys[keyIndex].sortFunc = tableExported.SortKeys[keyIndex].SortFunc
+		// GOB does not encode functions, so look up the sort function again.
+		table.sortKeys[keyIndex].sortFunc = compareFuncs[tableExported.SortKeys[keyIndex].ColType]
 	}
 
 	table.isStructShape = tableExported.StructShape
-- 
2.43.0


From 54383fcbe0ae5584428797cbda0741638d0bd6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 09/34] fix: IsValidTable returns the error for an inconsistent
 map of col names

---
 gotables.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index 06d1f85..acf95d1 100644
--- a/gotables.go
+++ b/gotables.go
@@ -2823,7 +2823,7 @@ func (table *Table) IsValidTable() (isValid bool, err error) {
 
 	_, err = table.isValidColNamesMap()
 	if err != nil {
-		return false, nil
+		return false, err
 	}
 
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
-- 
2.43.0


From df3998494ec3bfe268b36c3312ad193d60da3fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:24 +0000
Subject: [PATCH 10/34] fix: SwapCols and SwapColsByColIndex swap the cells
 along with the names and types of the columns

---
 sort.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sort.go b/sort.go
index 755520c..e65f1e6 100644
--- a/sort.go
+++ b/sort.go
@@ -958,6 +958,11 @@ func (table *Table) SwapColsByColIndex(colIndex1 int, colIndex2 int) error {
 
 	table.colNamesMap[colName1], table.colNamesMap[colName2] = table.colNamesMap[colName2], table.colNamesMap[colName1]
 
+	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
+		row := table.rows[rowIndex]
+		row[colIndex1], row[colIndex2] = row[colIndex2], row[colIndex1]
+	}
+
 	return nil
 }
 
@@ -993,6 +998,11 @@ func (table *Table) SwapCols(colName1 string, colName2 string) error {
 
 	table.colNamesMap[colName1], table.colNamesMap[colName2] = table.colNamesMap[colName2], table.colNamesMap[colName1]
 
+	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
+		row := table.rows[rowIndex]
+		row[col1], row[col2] = row[col2], row[col1]
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 3d77afe78bf28ed78fb722b632ffe57184d1a6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 11/34] fix: order NaN before other floats when comparing,
 instead of equal to every float

---
 sort.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sort.go b/sort.go
index e65f1e6..39eaeeb 100644
--- a/sort.go
+++ b/sort.go
@@ -441,6 +441,14 @@ var compare_float32 compareFunc = func(i, j interface{}) int {
 		return -1
 	} else if float32i > float32j {
 		return +1
+	} else if float32i == float32j {
+		return 0
+	}
+	// At least one is NaN. NaN sorts before any other value, and is equal to itself.
+	if float32j == float32j {
+		return -1
+	} else if float32i == float32i {
+		return +1
 	} else {
 		return 0
 	}
@@ -453,6 +461,14 @@ var compare_float64 compareFunc = func(i, j interface{}) int {
 		return -1
 	} else if float64i > float64j {
 		return +1
+	} else if float64i == float64j {
+		return 0
+	}
+	// At least one is NaN. NaN sorts before any other value, and is equal to itself.
+	if float64j == float64j {
+		return -1
+	} else if float64i == float64i {
+		return +1
 	} else {
 		return 0
 	}
-- 
2.43.0


From df064e5b0f4c5a4b5e93dfb3b3114549d1f3e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 12/34] fix: SetSortKeys, Sort and SortUnique that fail leave
 the sort keys as they were

---
 sort.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sort.go b/sort.go
index 39eaeeb..a223895 100644
--- a/sort.go
+++ b/sort.go
@@ -171,11 +171,14 @@ func (table *Table) SetSortKeys(sortColNames ...string) error {
 		return fmt.Errorf("table.%s table is <nil>", UtilFuncName())
 	}
 
+	var oldSortKeys = table.sortKeys
+
 	table.sortKeys = newSortKeys() // Replace any existing sort keys.
 
 	for _, colName := range sortColNames {
 		err := table.AppendSortKey(colName)
 		if err != nil {
+			table.sortKeys = oldSortKeys // Leave the table as it was.
 			//			errSortKey := errors.New(fmt.Sprintf("SetSortKeys(%v): %v\n", sortColNames, err))
 			errSortKey := fmt.Errorf("SetSortKeys(%v): %v", sortColNames, err)
 			return errSortKey
-- 
2.43.0


From 5920fc5a2676d8e33bdcc5c9fee27620fb1df857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:25 +0000
Subject: [PATCH 13/34] fix: a value of another type with the column type's
 name is not a valid cell value

---
 gotables.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index acf95d1..8cf5090 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3157,7 +3157,8 @@ func (table *Table) IsValidCellValue(colName string, value interface{}) (bool, e
 	}
 
 	valueType := reflect.TypeOf(value)
-	valueTypeName := valueType.Name()
+	// Qualified, so that a type of another package with the same name is not mistaken for colType.
+	valueTypeName := valueType.String()
 
 	if valueTypeName != colType {
 		return false, fmt.Errorf("table[%s] col=%s type=%s invalid value: %v", table.Name(), colName, colType, value)
-- 
2.43.0


From 5c09898fb409e9f6b38d9bfedd92f934f350539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:52 +0000
Subject: [PATCH 14/34] fix: AppendTable rejects a nil table instead of storing
 it (a second one panicked)

---
 gotables.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gotables.go b/gotables.go
index 8cf5090..026e47e 100644
--- a/gotables.go
+++ b/gotables.go
@@ -423,6 +423,10 @@ func (tableSet *TableSet) AppendTable(newTable *Table) error {
 		return fmt.Errorf("%s tableSet.%s tableSet is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
+	if newTable == nil {
+		return fmt.Errorf("%s tableSet.%s newTable is <nil>", UtilFuncSource(), UtilFuncName())
+	}
+
 	// Note: Could maintain a map in parallel for rapid lookup of table names.
 	for _, existingTable := range tableSet.tables {
 		if existingTable.Name() == newTable.Name() {
-- 
2.43.0


From 1891e2339c5c153b67e3cfffb1c48700b24b5429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:52 +0000
Subject: [PATCH 15/34] fix: IsValidTableNesting looked up nested cells in the
 root table, so any tree of depth 2 was reported circular

---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index 480072e..af7af85 100644
--- a/tree.go
+++ b/tree.go
@@ -337,7 +337,7 @@ func (rootTable *Table) IsValidTableNesting() (valid bool, err error) {
 	visitCell = func(walkNestedTables bool, cellInfo CellInfo) (err error) {
 		if IsTableColType(cellInfo.ColType) {
 			var nestedTable *Table
-			nestedTable, err = rootTable.GetTableByColIndex(cellInfo.ColIndex, cellInfo.RowIndex)
+			nestedTable, err = cellInfo.Table.GetTableByColIndex(cellInfo.ColIndex, cellInfo.RowIndex)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 96bc29edd6cbc98de39036061f1cd0488be69782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 16/34] fix: Equals looked up nested tables of the second table
 by the first table's column index, so equal tables with columns in another
 order were unequal

---
 gotables.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index 026e47e..b07ee3f 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3414,7 +3414,7 @@ func (table1 *Table) Equals(table2 *Table) (equals bool, err error) {
 				if err != nil {
 					return false, err
 				}
-				nestedTable2, err := table2.GetTableByColIndex(colIndex, rowIndex)
+				nestedTable2, err := table2.GetTable(colName, rowIndex)
 				if err != nil {
 					return false, err
 				}
-- 
2.43.0


From 1999eb8f299ef8a12df9dc34cce6e78473f8f447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:02 +0000
Subject: [PATCH 17/34] fix: GetCellInfoByColIndex panicked for a column index
 out of range

---
 tree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index af7af85..72401b5 100644
--- a/tree.go
+++ b/tree.go
@@ -222,13 +222,14 @@ func (table *Table) GetCellInfoByColIndex(colIndex int, rowIndex int) (cellInfo
 	cellInfo.Table = table
 	cellInfo.ColIndex = colIndex
 	cellInfo.RowIndex = rowIndex
-	cellInfo.ColType = table.colTypes[colIndex]
 
 	cellInfo.ColName, err = table.ColName(colIndex)
 	if err != nil {
 		return cellInfo, err
 	}
 
+	cellInfo.ColType = table.colTypes[colIndex]
+
 	return cellInfo, nil
 }
 
-- 
2.43.0


From 926181aabfbc4ac2bc8ece70340b2ccdb188cddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:13 +0000
Subject: [PATCH 18/34] fix: Walk panicked on a nil walkSafe at the first
 nested table, and left depth incremented after an error

---
 tree.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tree.go b/tree.go
index 72401b5..d256cbf 100644
--- a/tree.go
+++ b/tree.go
@@ -84,7 +84,7 @@ func (table *Table) Walk(
 		return
 	}
 
-	if table == nil {
+	if walkNestedTables && walkSafe == nil {
 		err = fmt.Errorf("table.%s(): walkSafe is nil", UtilFuncNameNoParens())
 		return
 	}
@@ -179,12 +179,13 @@ func (table *Table) Walk(
 // where(fmt.Sprintf("walkSafe %p = %v", walkSafe, walkSafe))
 // where("calling nestedTable.Walk()")
 					err = nestedTable.Walk(walkNestedTables, walkSafe, visitTable, visitRow, visitCell)
-					if err != nil {
-						return
-					}
 
 					// Back up from nested table.
 					nestedTable.depth--
+
+					if err != nil {
+						return
+					}
 				}
 			}
 		}
-- 
2.43.0


From 641b7b219a1d39336d359ff7049d8eabfbb9cacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:22 +0000
Subject: [PATCH 19/34] fix: CopyDeep returned the original (or one of its
 nested tables) and replaced the original's nested tables

---
 tree.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tree.go b/tree.go
index d256cbf..068b067 100644
--- a/tree.go
+++ b/tree.go
@@ -408,9 +408,11 @@ func (table *Table) CopyDeep() (tableCopy *Table, err error) {
 		return nil, fmt.Errorf("table.%s: table is nil", UtilFuncName())
 	}
 
-	// This may seem odd, but this is the point in CopyDeep() where it's possible
-	// to set tableCopy before all the recursive calls have occurred.
-	tableCopy = table
+	// Copy the root table. Its nested tables are copied (and replaced in the copy) below.
+	tableCopy, err = table.Copy()
+	if err != nil {
+		return nil, err
+	}
 
 	var visitTable = func(t *Table) (err error) {
 		// where(fmt.Sprintf("[%s]", t.Name()))
@@ -450,7 +452,6 @@ func (table *Table) CopyDeep() (tableCopy *Table, err error) {
 				return
 			}
 		}
-		tableCopy = cell.Table
 
 		return
 	}
@@ -459,7 +460,7 @@ func (table *Table) CopyDeep() (tableCopy *Table, err error) {
 	var walkSafe WalkSafe = make(WalkSafe)
 	// where(fmt.Sprintf("declaring walkSafe = %p", walkSafe))
 	// where("BEGIN Walk()")
-	err = table.Walk(walkDeep, walkSafe, visitTable, nil, visitCell)
+	err = tableCopy.Walk(walkDeep, walkSafe, visitTable, nil, visitCell)
 	// where("END Walk()")
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 2c367a5a44b3052309271eff395cdda92a78d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:41 +0000
Subject: [PATCH 20/34] fix: Merge tables that have no key in common

---
 merge.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/merge.go b/merge.go
index 2131936..8db743e 100644
--- a/merge.go
+++ b/merge.go
@@ -242,6 +242,8 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 
 	// where(fmt.Sprintf("BEFORE Merge()\n%s\n", merged))
 
+	var deleteCount int // How many rows are duplicates. There may be none.
+
 	// Loop through to the second-last row, comparing each row with the row after it.
 	for rowIndex := 0; rowIndex < merged.RowCount()-1; rowIndex++ {
 
@@ -435,6 +437,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 			if err != nil {
 				return nil, err
 			}
+			deleteCount++
 		}
 	}
 
@@ -448,16 +451,18 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return nil, err
 	}
 
-	// Find the block of rows to delete.
-	first, last, err := merged.SearchRange(true)
-	if err != nil {
-		return nil, err
-	}
+	if deleteCount > 0 {
+		// Find the block of rows to delete.
+		first, last, err := merged.SearchRange(true)
+		if err != nil {
+			return nil, err
+		}
 
-	// Delete the block of rows.
-	err = merged.DeleteRows(first, last)
-	if err != nil {
-		return nil, err
+		// Delete the block of rows.
+		err = merged.DeleteRows(first, last)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	// Delete the temporary tag columns.
-- 
2.43.0


From 5e41733afd5f9275305b910aaee0dd481f8b7ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:11 +0000
Subject: [PATCH 21/34] fix: Merge matching rows with byte, rune, []byte,
 []uint8 and time.Time columns

---
 merge.go | 51 +++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 49 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index 8db743e..5dc3462 100644
--- a/merge.go
+++ b/merge.go
@@ -26,6 +26,7 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"time"
 )
 
 /*
@@ -315,7 +316,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
-				case "int8", "int16", "int32", "int64", "int":
+				case "int8", "int16", "int32", "int64", "int", "rune":
 					var tmp1 interface{}
 					var tmp2 interface{}
 					var val1 int64
@@ -343,7 +344,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
-				case "uint8", "uint16", "uint32", "uint64", "uint":
+				case "uint8", "uint16", "uint32", "uint64", "uint", "byte":
 					var tmp1 interface{}
 					var tmp2 interface{}
 					var val1 uint64
@@ -413,6 +414,52 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
+				case "[]byte", "[]uint8":
+					var tmp1 interface{}
+					var tmp2 interface{}
+					tmp1, err = merged.GetValByColIndex(colIndex, rowIndex)
+					if err != nil {
+						return nil, err
+					}
+					tmp2, err = merged.GetValByColIndex(colIndex, rowIndex+1)
+					if err != nil {
+						return nil, err
+					}
+					if len(tmp1.([]byte)) != 0 { // Covers combinations (c) and (d)
+						err = merged.SetValByColIndex(colIndex, rowIndex+1, tmp1) // Use val1
+						if err != nil {
+							return nil, err
+						}
+					} else if len(tmp2.([]byte)) != 0 { // Covers combination (b)
+						err = merged.SetValByColIndex(colIndex, rowIndex, tmp2) // Use val2
+						if err != nil {
+							return nil, err
+						}
+					}
+					// Otherwise both vals must be zero. Do nothing.
+				case "time.Time":
+					var val1 time.Time
+					var val2 time.Time
+					val1, err = merged.GetTimeByColIndex(colIndex, rowIndex)
+					if err != nil {
+						return nil, err
+					}
+					val2, err = merged.GetTimeByColIndex(colIndex, rowIndex+1)
+					if err != nil {
+						return nil, err
+					}
+					if !val1.IsZero() { // Covers combinations (c) and (d)
+						err = merged.SetTimeByColIndex(colIndex, rowIndex+1, val1) // Use val1
+						if err != nil {
+							return nil, err
+						}
+					} else if !val2.IsZero() { // Covers combination (b)
+						err = merged.SetTimeByColIndex(colIndex, rowIndex, val2) // Use val2
+						if err != nil {
+							return nil, err
+						}
+					}
+					// Otherwise both vals must be zero. Do nothing.
 				default:
 					// Should never reach here.
 					var isValid bool
-- 
2.43.0


From 12dc864972ac04784d7419d99cc10035cde575e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:33 +0000
Subject: [PATCH 22/34] fix: Merge with an empty table returns a new sorted
 table, not its argument

---
 merge.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/merge.go b/merge.go
index 5dc3462..1def8a2 100644
--- a/merge.go
+++ b/merge.go
@@ -81,6 +81,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 	}
 
 	// Local function.
+	// Return a sorted copy, so that the merged table is always a new table.
 	sortMerged := func(localMerged *Table) (*Table, error) {
 		if localMerged.SortKeyCount() == 0 {
 			err = setSortKeysBetweenTables()
@@ -89,12 +90,23 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 			}
 		}
 
-		err = localMerged.Sort()
+		var sorted *Table
+		sorted, err = localMerged.Copy()
 		if err != nil {
 			return nil, err
 		}
 
-		return localMerged, nil
+		err = sorted.SetSortKeysFromTable(localMerged)
+		if err != nil {
+			return nil, err
+		}
+
+		err = sorted.Sort()
+		if err != nil {
+			return nil, err
+		}
+
+		return sorted, nil
 	}
 
 	if table1 == nil {
@@ -107,22 +119,12 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return merged, err
 	}
 
-	// TODO: this value of merged is never used (SA4006)
 	if table1.RowCount() == 0 {
-		merged, err = sortMerged(table2)
-		if err != nil {
-			return nil, err
-		}
-		return table2, nil
+		return sortMerged(table2)
 	}
 
-	// TODO: this value of merged is never used (SA4006)
 	if table2.RowCount() == 0 {
-		merged, err = sortMerged(table1)
-		if err != nil {
-			return nil, err
-		}
-		return table1, nil
+		return sortMerged(table1)
 	}
 
 	// Check that table1 and table2 have the same sort columns.
-- 
2.43.0


From ec4e1c9d74c53feb73f5745d46d0cfbf0db853c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:11 +0000
Subject: [PATCH 23/34] fix: SortKeyCount of a nil table

---
 sort.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sort.go b/sort.go
index a223895..b12aabf 100644
--- a/sort.go
+++ b/sort.go
@@ -807,6 +807,10 @@ func newSortKeys() SortKeys {
 }
 
 func (table *Table) SortKeyCount() int {
+	if table == nil {
+		_, _ = os.Stderr.WriteString(fmt.Sprintf("%s ERROR: table.%s: table is <nil>\n", UtilFuncSource(), UtilFuncName()))
+		return -1
+	}
 	return len(table.sortKeys)
 }
 
-- 
2.43.0


From a1a15145547552cfb86fc41966d54a2efb173bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:14 +0000
Subject: [PATCH 24/34] fix: GobEncode of a nil table set and GobDecodeTableSet
 of nothing return errors

---
 gob.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gob.go b/gob.go
index 4c95e45..cbe4670 100644
--- a/gob.go
+++ b/gob.go
@@ -192,6 +192,10 @@ func (tableSet *TableSet) GobEncode() ([]bytes.Buffer, error) {
 	var encodedTableSet []bytes.Buffer
 	var err error
 
+	if tableSet == nil {
+		return emptyBuffer, fmt.Errorf("tableSet.%s() tableSet is <nil>", UtilFuncName())
+	}
+
 	for tableIndex := 0; tableIndex < len(tableSet.tables); tableIndex++ {
 		var table *Table = tableSet.tables[tableIndex]
 		var encodedTable *bytes.Buffer
@@ -254,6 +258,11 @@ func NewTableSetFromGob(buffer []bytes.Buffer) (*TableSet, error) {
 func GobDecodeTableSet(buffer []bytes.Buffer) (*TableSet, error) {
 	var tableSet *TableSet
 	var err error
+
+	if len(buffer) == 0 {
+		return nil, fmt.Errorf("%s: buffer has no table set header", UtilFuncName())
+	}
+
 	tableSet, err = NewTableSet("")
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 958c2a7455c9b9747080a18ba6fd8e72236b768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:16 +0000
Subject: [PATCH 25/34] fix: AppendRowsFromTable checks the row range before it
 appends anything

---
 gotables.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gotables.go b/gotables.go
index b07ee3f..dd5cc70 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3552,6 +3552,11 @@ func (toTable *Table) AppendRowsFromTable(fromTable *Table, firstRow int, lastRo
 		}
 	}
 
+	if firstRow <= lastRow && (firstRow < 0 || lastRow >= fromTable.RowCount()) {
+		return fmt.Errorf("toTable.%s: fromTable [%s] has %d row(s). Rows do not exist: %d to %d",
+			UtilFuncName(), fromTable.Name(), fromTable.RowCount(), firstRow, lastRow)
+	}
+
 	// Note: multiple assignment syntax in for loop.
 	for fromRow, toRow := firstRow, toTable.RowCount(); fromRow <= lastRow; fromRow, toRow = fromRow+1, toRow+1 {
 
-- 
2.43.0


From 7cf40d5a005df1e4d2896ec552129f1786168dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:48 +0000
Subject: [PATCH 26/34] fix: padded printing of integers above 2^53 loses
 digits

---
 gotables.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gotables.go b/gotables.go
index dd5cc70..71ee4d3 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1335,15 +1335,16 @@ func printMatrix(tableName string, matrix [][]string, width []int, precis []int,
 				var toWrite string
 				if row <= 1 { // It's a colName or typeName
 					toWrite = matrix[col][row]
-				} else { // It's numeric. Note: float conversion handles int conversion.
+				} else if colTypes[col] != "float32" && colTypes[col] != "float64" {
+					// It's an integer. Don't convert it to float: that loses digits of large integers.
+					toWrite = matrix[col][row]
+				} else { // It's a float.
 					var bits int
 					switch colTypes[col] {
 					case "float32":
 						bits = 32
 					case "float64":
 						bits = 64
-					default:
-						bits = 64 // For int and other non-float integrals.
 					}
 					// Convert back to float so we can format it again in light of the maximum precision in the column.
 					float64Val, err := strconv.ParseFloat(matrix[col][row], bits)
-- 
2.43.0


From 51908d59fdc7bad4ec93dd35a3692f3df7c664eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:49 +0000
Subject: [PATCH 27/34] fix: parsing a time whose fraction of a second has
 fewer than 9 digits fails

---
 parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 8067772..e47012a 100644
--- a/parser.go
+++ b/parser.go
@@ -150,7 +150,8 @@ const tableNameNilPattern string = `^(\[\])`                  // Don't add $ at
 // const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(Z|([+-]\d{2}:\d{2}))`
 // RFC3339Nano = "2006-01-02T15:04:05.999999999Z07:00"
 // const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d+)?(Z|([+-]\d{2}:\d{2}))`
-const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{9})?(Z|([+-]\d{2}:\d{2}))`
+// Note: RFC3339Nano formatting removes trailing zeros from the fraction of a second.
+const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{1,9})?(Z|([+-]\d{2}:\d{2}))`
 
 var tableSetNameRegexp *regexp.Regexp = regexp.MustCompile(tableSetNamePattern)
 var tableNameRegexp *regexp.Regexp = regexp.MustCompile(tableNamePattern)
-- 
2.43.0


From 980bd85ce41fa01fd541f62a69dd2e111bea11e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:50 +0000
Subject: [PATCH 28/34] fix: strings and runes printed in struct shape are not
 escaped

---
 gotables.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gotables.go b/gotables.go
index 71ee4d3..c204cee 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1637,11 +1637,11 @@ func printStruct(table *Table) string {
 			switch table.colTypes[colIndex] {
 			case "string":
 				// Note 1: GetValAsStringByColIndex() doesn't include delimiters around strings.
-				// Note 2: Don't use %q. Use \"%s\" instead. Because %q replicates escape slashes.
-				s += " = " + fmt.Sprintf("\"%s\"", asString)
+				// Note 2: The parser unquotes the string.
+				s += " = " + strconv.Quote(asString)
 			case "rune":
 				// Note: GetValAsStringByColIndex() doesn't include delimiters around runes.
-				s += " = " + fmt.Sprintf("'%s'", asString)
+				s += " = " + strconv.QuoteRune(table.rows[RowIndexZero][colIndex].(rune))
 			default:
 				// All other types don't have delimiters.
 				s += " = " + asString
-- 
2.43.0


From a073df5a951e76222b25a70fad8e5880f1a5de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:50 +0000
Subject: [PATCH 29/34] fix: StringUnpadded of a table with byte, []byte,
 []uint8 or time.Time columns returns ""

---
 gotables.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index c204cee..8358cf8 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1232,9 +1232,13 @@ func (table *Table) _String(horizontalSeparator byte) string {
 				case "bool":
 					tVal = row[colIndex].(bool)
 					buf.WriteString(fmt.Sprintf("%t", tVal))
-				case "uint8":
+				case "uint8", "byte":
 					ui8Val = row[colIndex].(uint8)
 					buf.WriteString(fmt.Sprintf("%d", ui8Val))
+				case "[]uint8", "[]byte":
+					buf.WriteString(fmt.Sprintf("%v", row[colIndex].([]uint8)))
+				case "time.Time":
+					buf.WriteString(row[colIndex].(time.Time).Format(time.RFC3339Nano))
 				case "uint16":
 					ui16Val = row[colIndex].(uint16)
 					buf.WriteString(fmt.Sprintf("%d", ui16Val))
-- 
2.43.0


From ac19460d0f27b2983ab9a4cf3e2f0dc58f728075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:51 +0000
Subject: [PATCH 30/34] fix: a float64 cell with an integral value cannot be
 read back from YAML

---
 yaml.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaml.go b/yaml.go
index 09d961b..b2cb345 100644
--- a/yaml.go
+++ b/yaml.go
@@ -229,6 +229,8 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 					err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64(intVal))
 				case "float32":
 					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(intVal))
+				case "float64": // YAML writes 1.0 as 1
+					err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64(intVal))
 				case "time.Time":
 					err = table.SetTimeByColIndex(colIndex, rowIndex, row[colIndex].(time.Time))
 				case "rune":
-- 
2.43.0


From aeccefa16bcc81578f74432e6db982b72ece5cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:52 +0000
Subject: [PATCH 31/34] fix: GetTableSetAsYAML returns no error when it fails

---
 yaml.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaml.go b/yaml.go
index b2cb345..7bafff1 100644
--- a/yaml.go
+++ b/yaml.go
@@ -379,13 +379,13 @@ func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 	var yamlMap map[string]interface{}
 	yamlMap, err = tableSet.GetTableSetAsMap()
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 
 	var yamlBytes []byte
 	yamlBytes, err = yaml.Marshal(yamlMap)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 
 	yamlString = string(yamlBytes)
-- 
2.43.0


From 66bbab23ae9f21b92f64e8010f1c565ce00aa32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:53 +0000
Subject: [PATCH 32/34] fix: strings and runes with control or unprintable
 characters are written as invalid JSON

---
 json.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/json.go b/json.go
index 376de3a..50dd57f 100644
--- a/json.go
+++ b/json.go
@@ -100,7 +100,7 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 	// Add this table to the circular reference map.
 	refMap[table] = EmptyStruct
 
-	buf.WriteString(fmt.Sprintf(`"tableName":%q,`, table.Name()))
+	buf.WriteString(fmt.Sprintf(`"tableName":%s,`, quoteJSON(table.Name())))
 
 	isStructShape, err := table.IsStructShape()
 	if err != nil {
@@ -143,7 +143,7 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 			switch val.(type) {
 
 			case string:
-				buf.WriteString(fmt.Sprintf("%q", val.(string)))
+				buf.WriteString(quoteJSON(val.(string)))
 
 			case bool, int, uint, int8, int16, int64, uint8, uint16, uint32, uint64, float32, float64:
 				var valStr string
@@ -164,7 +164,7 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 				case "int32":
 					buf.WriteString(valStr)
 				case "rune":
-					buf.WriteString(fmt.Sprintf("%q", valStr))
+					buf.WriteString(quoteJSON(valStr))
 				default:
 					msg := invalidColTypeMsg(table.Name(), fmt.Sprintf("%s: %s", UtilFuncName(), table.colTypes[colIndex]))
 					buf.WriteString(msg)
@@ -257,6 +257,15 @@ func (table *Table) GetTableAsJSONIndent() (jsonStringIndented string, err error
 	return
 }
 
+// Quote a string the JSON way. Go quoting (%q) has escapes which JSON does not have.
+func quoteJSON(s string) string {
+	var buf bytes.Buffer
+	encoder := json.NewEncoder(&buf)
+	encoder.SetEscapeHTML(false)
+	_ = encoder.Encode(s) // A string always encodes.
+	return strings.TrimSuffix(buf.String(), "\n")
+}
+
 func checkJsonDecodeError(checkErr error) (err error) {
 	if checkErr == io.EOF {
 		return fmt.Errorf("%s %s: unexpected EOF", UtilFuncSource(), UtilFuncName())
@@ -531,7 +540,7 @@ func (tableSet *TableSet) GetTableSetAsJSON() (jsonTableSetString string, err er
 	var buf bytes.Buffer
 
 	buf.WriteByte(123) // Opening brace outermost
-	buf.WriteString(fmt.Sprintf(`"tableSetName":%q,`, tableSet.Name()))
+	buf.WriteString(fmt.Sprintf(`"tableSetName":%s,`, quoteJSON(tableSet.Name())))
 	buf.WriteString(`"tables":[`) // Opening array of tables
 
 	var tableCount int = tableSet.TableCount()
-- 
2.43.0


From bb3a774695065953af5aadaa0408138e1175c1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:54 +0000
Subject: [PATCH 33/34] fix: integers read from JSON lose digits above 2^53

---
 json.go | 79 ++++++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 67 insertions(+), 12 deletions(-)

diff --git a/json.go b/json.go
index 50dd57f..d59cd0f 100644
--- a/json.go
+++ b/json.go
@@ -9,7 +9,7 @@ import (
 	_ "os"
 	"reflect"
 	"regexp"
-	_ "strconv"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -266,6 +266,26 @@ func quoteJSON(s string) string {
 	return strings.TrimSuffix(buf.String(), "\n")
 }
 
+// Get an integer of bitSize bits from a JSON number, without losing digits.
+func intFromJSON(number json.Number, bitSize int) (int64Val int64, err error) {
+	if strings.ContainsAny(number.String(), ".eE") { // Such as 1.0 or 1e3
+		var float64Val float64
+		float64Val, err = number.Float64()
+		return int64(float64Val), err
+	}
+	return strconv.ParseInt(number.String(), 10, bitSize)
+}
+
+// Get an unsigned integer of bitSize bits from a JSON number, without losing digits.
+func uintFromJSON(number json.Number, bitSize int) (uint64Val uint64, err error) {
+	if strings.ContainsAny(number.String(), ".eE") { // Such as 1.0 or 1e3
+		var float64Val float64
+		float64Val, err = number.Float64()
+		return uint64(float64Val), err
+	}
+	return strconv.ParseUint(number.String(), 10, bitSize)
+}
+
 func checkJsonDecodeError(checkErr error) (err error) {
 	if checkErr == io.EOF {
 		return fmt.Errorf("%s %s: unexpected EOF", UtilFuncSource(), UtilFuncName())
@@ -410,33 +430,68 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 						return nil, fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
 					}
 
+					var int64Val int64
+					var uint64Val uint64
 					switch colType { // We need to convert them back to gotables numeric types
 					case "int64":
-						err = table.SetInt64ByColIndex(colIndex, rowIndex, int64(float64Val))
+						int64Val, err = intFromJSON(cell.(json.Number), 64)
+						if err == nil {
+							err = table.SetInt64ByColIndex(colIndex, rowIndex, int64Val)
+						}
 					case "uint64":
-						err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64(float64Val))
+						uint64Val, err = uintFromJSON(cell.(json.Number), 64)
+						if err == nil {
+							err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64Val)
+						}
 					case "float32":
 						err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(float64Val))
 					case "float64":
 						err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64Val)
 					case "int":
-						err = table.SetIntByColIndex(colIndex, rowIndex, int(float64Val))
+						int64Val, err = intFromJSON(cell.(json.Number), strconv.IntSize)
+						if err == nil {
+							err = table.SetIntByColIndex(colIndex, rowIndex, int(int64Val))
+						}
 					case "uint":
-						err = table.SetUintByColIndex(colIndex, rowIndex, uint(float64Val))
+						uint64Val, err = uintFromJSON(cell.(json.Number), strconv.IntSize)
+						if err == nil {
+							err = table.SetUintByColIndex(colIndex, rowIndex, uint(uint64Val))
+						}
 					case "byte":
-						err = table.SetByteByColIndex(colIndex, rowIndex, byte(float64Val))
+						uint64Val, err = uintFromJSON(cell.(json.Number), 8)
+						if err == nil {
+							err = table.SetByteByColIndex(colIndex, rowIndex, byte(uint64Val))
+						}
 					case "int8":
-						err = table.SetInt8ByColIndex(colIndex, rowIndex, int8(float64Val))
+						int64Val, err = intFromJSON(cell.(json.Number), 8)
+						if err == nil {
+							err = table.SetInt8ByColIndex(colIndex, rowIndex, int8(int64Val))
+						}
 					case "int16":
-						err = table.SetInt16ByColIndex(colIndex, rowIndex, int16(float64Val))
+						int64Val, err = intFromJSON(cell.(json.Number), 16)
+						if err == nil {
+							err = table.SetInt16ByColIndex(colIndex, rowIndex, int16(int64Val))
+						}
 					case "int32":
-						err = table.SetInt32ByColIndex(colIndex, rowIndex, int32(float64Val))
+						int64Val, err = intFromJSON(cell.(json.Number), 32)
+						if err == nil {
+							err = table.SetInt32ByColIndex(colIndex, rowIndex, int32(int64Val))
+						}
 					case "uint8":
-						err = table.SetUint8ByColIndex(colIndex, rowIndex, uint8(float64Val))
+						uint64Val, err = uintFromJSON(cell.(json.Number), 8)
+						if err == nil {
+							err = table.SetUint8ByColIndex(colIndex, rowIndex, uint8(uint64Val))
+						}
 					case "uint16":
-						err = table.SetUint16ByColIndex(colIndex, rowIndex, uint16(float64Val))
+						uint64Val, err = uintFromJSON(cell.(json.Number), 16)
+						if err == nil {
+							err = table.SetUint16ByColIndex(colIndex, rowIndex, uint16(uint64Val))
+						}
 					case "uint32":
-						err = table.SetUint32ByColIndex(colIndex, rowIndex, uint32(float64Val))
+						uint64Val, err = uintFromJSON(cell.(json.Number), 32)
+						if err == nil {
+							err = table.SetUint32ByColIndex(colIndex, rowIndex, uint32(uint64Val))
+						}
 					default:
 						return nil, fmt.Errorf("%s %s: unexpected value of type: %s",
 							UtilFuncSource(), UtilFuncName(), colType)
-- 
2.43.0


From baa6140b4aa079517b3b328bea8b028c1b3cc33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:55 +0000
Subject: [PATCH 34/34] fix: StringUnpadded of a table set leaves out the name
 of the set

---
 gotables.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gotables.go b/gotables.go
index 8358cf8..f1b801f 100644
--- a/gotables.go
+++ b/gotables.go
@@ -342,6 +342,9 @@ func (tableSet *TableSet) _String(horizontalSeparator byte) string {
 
 	var buf bytes.Buffer
 	//	buf.WriteString("# From file: \"" + tableSet.name + "\"\n\n")
+	if tableSet.Name() != "" {
+		buf.WriteString(fmt.Sprintf("[[%s]]\n\n", tableSet.Name()))
+	}
 	var tableSep = ""
 	var table *Table
 	for i := 0; i < len(tableSet.tables); i++ {
-- 
2.43.0

