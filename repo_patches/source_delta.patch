From d2decdcfd27a71ad9509f13a47acc097a4d575e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:46 +0000
Subject: [PATCH 01/85] fix: report a failed COMMIT instead of succeeding
 silently

---
 adapter/database.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/adapter/database.go b/adapter/database.go
index 3cd6755..bb2e6ec 100644
--- a/adapter/database.go
+++ b/adapter/database.go
@@ -74,6 +74,5 @@ func RunDDLs(d Database, ddls []string, skipDrop bool) error {
 			return err
 		}
 	}
-	transaction.Commit()
-	return nil
+	return transaction.Commit()
 }
-- 
2.43.0


From f1aa31a0cad3d1e61474299b02973729ee12be68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:46 +0000
Subject: [PATCH 02/85] fix: mssql: separate exported CREATE INDEX statements

---
 adapter/mssql/mssql.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index a84e86a..0ddf753 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -154,6 +154,7 @@ func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, fo
 			}
 			fmt.Fprint(&queryBuilder, " )")
 		}
+		fmt.Fprint(&queryBuilder, ";\n")
 	}
 	return strings.TrimSuffix(queryBuilder.String(), ";\n")
 }
-- 
2.43.0


From 4fd1a236aae38bbb3ed15e566c32369c923613da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:46 +0000
Subject: [PATCH 03/85] fix: mssql: export indexes in a stable order

---
 adapter/mssql/mssql.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 0ddf753..ba5a60c 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -288,6 +288,7 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 	}
 
 	indexDefMap := make(map[string]*indexDef)
+	indexDefs := make([]*indexDef, 0) // in the order of the catalog
 	var indexName, typeDesc, fillfactor string
 	var isPrimary, isUnique, padIndex, ignoreDupKey, noRecompute, incremental, rowLocks, pageLocks bool
 	for rows.Next() {
@@ -308,6 +309,7 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 
 		definition := &indexDef{name: indexName, columns: []string{}, primary: isPrimary, unique: isUnique, indexType: typeDesc, included: []string{}, options: options}
 		indexDefMap[indexName] = definition
+		indexDefs = append(indexDefs, definition)
 	}
 
 	rows.Close()
@@ -347,10 +349,6 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		}
 	}
 
-	indexDefs := make([]*indexDef, 0)
-	for _, definition := range indexDefMap {
-		indexDefs = append(indexDefs, definition)
-	}
 	return indexDefs, nil
 }
 
-- 
2.43.0


From be5ae1297b4a4f9959daa91bcfe8f80dd7e6e91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 04/85] fix: return catalog query errors instead of crashing on
 the missing result

---
 adapter/mssql/mssql.go       | 2 +-
 adapter/postgres/postgres.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index ba5a60c..6a831bc 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -207,7 +207,7 @@ WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')`, schema, table)
 
 	rows, err := d.db.Query(query)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index f9d2a35..f5f2470 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -225,7 +225,7 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
@@ -273,7 +273,7 @@ func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
-- 
2.43.0


From 41b961497c745875a43e00ca33129a774221db52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 05/85] fix: report errors that end the iteration over catalog
 rows

---
 adapter/mssql/mssql.go       | 21 +++++++++++++++++++++
 adapter/mysql/mysql.go       |  9 +++++++++
 adapter/postgres/postgres.go | 21 +++++++++++++++++++++
 adapter/sqlite3/sqlite3.go   |  6 ++++++
 4 files changed, 57 insertions(+)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 6a831bc..5476bdb 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -47,6 +47,9 @@ func (d *MssqlDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, schema+"."+name)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -246,6 +249,9 @@ WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')`, schema, table)
 		}
 		cols = append(cols, col)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return cols, nil
 }
 
@@ -311,6 +317,9 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		indexDefMap[indexName] = definition
 		indexDefs = append(indexDefs, definition)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	rows.Close()
 
@@ -348,6 +357,9 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 			indexDefMap[indexName].columns = append(indexDefMap[indexName].columns, columnDefinition)
 		}
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	return indexDefs, nil
 }
@@ -387,6 +399,9 @@ WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		}
 		defs = append(defs, def)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	return defs, nil
 }
@@ -435,6 +450,9 @@ INNER JOIN sys.sql_modules
 		definition = spaces.ReplaceAllString(definition, " ")
 		ddls = append(ddls, definition)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
@@ -459,6 +477,9 @@ INNER JOIN sys.all_sql_modules s ON s.object_id = tr.object_id`
 		}
 		triggers = append(triggers, definition)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	return triggers, nil
 }
diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index 7f5709d..21fe4fc 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -41,6 +41,9 @@ func (d *MysqlDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, table)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -75,6 +78,9 @@ func (d *MysqlDatabase) Views() ([]string, error) {
 		}
 		ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", viewName, definition))
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
@@ -93,6 +99,9 @@ func (d *MysqlDatabase) Triggers() ([]string, error) {
 		}
 		ddls = append(ddls, fmt.Sprintf("CREATE TRIGGER %s %s %s ON %s FOR EACH ROW %s;", trigger, timing, event, table, statement))
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index f5f2470..4d77362 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -52,6 +52,9 @@ func (d *PostgresDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, schema+"."+name)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -89,6 +92,9 @@ func (d *PostgresDatabase) Views() ([]string, error) {
 			),
 		)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
@@ -265,6 +271,9 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 		}
 		cols = append(cols, col)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return cols, nil
 }
 
@@ -290,6 +299,9 @@ func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
 		}
 		indexes = append(indexes, indexdef)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return indexes, nil
 }
 
@@ -318,6 +330,9 @@ WHERE constraint_type = 'PRIMARY KEY' AND tc.table_schema=$1 AND tc.table_name=$
 		}
 		columnNames = append(columnNames, columnName)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return columnNames, nil
 }
 
@@ -359,6 +374,9 @@ WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$
 		)
 		defs = append(defs, def)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return defs, nil
 }
 
@@ -400,6 +418,9 @@ func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 		}
 		defs = append(defs, def)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return defs, nil
 }
 
diff --git a/adapter/sqlite3/sqlite3.go b/adapter/sqlite3/sqlite3.go
index b33094a..12c6d7c 100644
--- a/adapter/sqlite3/sqlite3.go
+++ b/adapter/sqlite3/sqlite3.go
@@ -41,6 +41,9 @@ func (d *Sqlite3Database) TableNames() ([]string, error) {
 		}
 		tables = append(tables, name)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -67,6 +70,9 @@ func (d *Sqlite3Database) Views() ([]string, error) {
 		}
 		ddls = append(ddls, sql)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	return ddls, nil
 }
-- 
2.43.0


From b203c7a78660c20c33c3b1ae4b685fa6f176f7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 06/85] fix: do not take names and values for DROP statements
 under --skip-drop

---
 adapter/database.go | 33 ++++++++++++++++++++++++++++++++-
 sqldef.go           |  3 +--
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/adapter/database.go b/adapter/database.go
index bb2e6ec..7935d6d 100644
--- a/adapter/database.go
+++ b/adapter/database.go
@@ -64,7 +64,7 @@ func RunDDLs(d Database, ddls []string, skipDrop bool) error {
 	}
 	fmt.Println("-- Apply --")
 	for _, ddl := range ddls {
-		if skipDrop && strings.Contains(ddl, "DROP") {
+		if skipDrop && IsDestructive(ddl) {
 			fmt.Printf("-- Skipped: %s;\n", ddl)
 			continue
 		}
@@ -76,3 +76,34 @@ func RunDDLs(d Database, ddls []string, skipDrop bool) error {
 	}
 	return transaction.Commit()
 }
+
+// IsDestructive tells whether a statement drops something: it has the keyword
+// DROP outside of string literals and quoted identifiers.
+func IsDestructive(ddl string) bool {
+	for i := 0; i < len(ddl); i++ {
+		switch c := ddl[i]; {
+		case c == '\'' || c == '"' || c == '`' || c == '[':
+			if c == '[' {
+				c = ']'
+			}
+			end := strings.IndexByte(ddl[i+1:], c)
+			if end < 0 {
+				return strings.Contains(ddl[i:], "DROP")
+			}
+			i += end + 1
+		case isWordByte(c):
+			start := i
+			for i+1 < len(ddl) && isWordByte(ddl[i+1]) {
+				i++
+			}
+			if ddl[start:i+1] == "DROP" {
+				return true
+			}
+		}
+	}
+	return false
+}
+
+func isWordByte(c byte) bool {
+	return c == '_' || c == '$' || c >= 0x80 || '0' <= c && c <= '9' || 'A' <= c && c <= 'Z' || 'a' <= c && c <= 'z'
+}
diff --git a/sqldef.go b/sqldef.go
index b5e7241..05090af 100644
--- a/sqldef.go
+++ b/sqldef.go
@@ -5,7 +5,6 @@ import (
 	"io/ioutil"
 	"log"
 	"os"
-	"strings"
 
 	"github.com/k0kubun/sqldef/adapter"
 	"github.com/k0kubun/sqldef/schema"
@@ -85,7 +84,7 @@ func readFile(filepath string) (string, error) {
 func showDDLs(ddls []string, skipDrop bool) {
 	fmt.Println("-- dry run --")
 	for _, ddl := range ddls {
-		if skipDrop && strings.Contains(ddl, "DROP") {
+		if skipDrop && adapter.IsDestructive(ddl) {
 			fmt.Printf("-- Skipped: %s;\n", ddl)
 			continue
 		}
-- 
2.43.0


From 5ec913280f7f321f69da0acf63f384a6bdd9a391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:42 +0000
Subject: [PATCH 07/85] fix: reject indexes and foreign keys defined twice or
 unnamed in any desired table

---
 schema/generator.go | 48 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 2f4421f..d28bbff 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -84,6 +84,9 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 	for _, ddl := range desiredDDLs {
 		switch desired := ddl.(type) {
 		case *CreateTable:
+			if err := validateDesiredTable(desired.table, desired.statement); err != nil {
+				return ddls, err
+			}
 			if currentTable := findTableByName(g.currentTables, desired.table.name); currentTable != nil {
 				// Table already exists, guess required DDLs.
 				tableDDLs, err := g.generateDDLsForCreateTable(*currentTable, *desired)
@@ -228,6 +231,40 @@ func (g *Generator) generateDDLsForAbsentColumn(currentTable *Table, columnName
 	return append(ddls, ddl)
 }
 
+// Reject indexes and foreign keys that are defined twice or cannot be identified.
+func validateDesiredTable(table Table, statement string) error {
+	indexNames := []string{}
+	for _, index := range table.indexes {
+		if containsString(indexNames, index.name) {
+			return fmt.Errorf("index '%s' is doubly created against table '%s': '%s'", index.name, table.name, statement)
+		}
+		indexNames = append(indexNames, index.name)
+	}
+
+	constraintNames := []string{}
+	for _, foreignKey := range table.foreignKeys {
+		if err := validateDesiredForeignKey(table.name, foreignKey); err != nil {
+			return err
+		}
+		if containsString(constraintNames, foreignKey.constraintName) {
+			return fmt.Errorf("foreign key '%s' is doubly created against table '%s': '%s'", foreignKey.constraintName, table.name, statement)
+		}
+		constraintNames = append(constraintNames, foreignKey.constraintName)
+	}
+	return nil
+}
+
+func validateDesiredForeignKey(tableName string, foreignKey ForeignKey) error {
+	if len(foreignKey.constraintName) == 0 {
+		return fmt.Errorf(
+			"Foreign key without constraint symbol was found in table '%s' (index name: '%s', columns: %v). "+
+				"Specify the constraint symbol to identify the foreign key.",
+			tableName, foreignKey.indexName, foreignKey.indexColumns,
+		)
+	}
+	return nil
+}
+
 // In the caller, `mergeTable` manages `g.currentTables`.
 func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired CreateTable) ([]string, error) {
 	ddls := []string{}
@@ -491,14 +528,6 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 
 	// Examine each foreign key
 	for _, desiredForeignKey := range desired.table.foreignKeys {
-		if len(desiredForeignKey.constraintName) == 0 {
-			return ddls, fmt.Errorf(
-				"Foreign key without constraint symbol was found in table '%s' (index name: '%s', columns: %v). "+
-					"Specify the constraint symbol to identify the foreign key.",
-				desired.table.name, desiredForeignKey.indexName, desiredForeignKey.indexColumns,
-			)
-		}
-
 		if currentForeignKey := findForeignKeyByName(currentTable.foreignKeys, desiredForeignKey.constraintName); currentForeignKey != nil {
 			// Drop and add foreign key as needed.
 			if !g.areSameForeignKeys(*currentForeignKey, desiredForeignKey) {
@@ -578,6 +607,9 @@ func (g *Generator) generateDDLsForAddForeignKey(tableName string, desiredForeig
 	if desiredTable == nil {
 		return nil, fmt.Errorf("%s is performed before create table '%s': '%s'", action, tableName, statement)
 	}
+	if err := validateDesiredForeignKey(tableName, desiredForeignKey); err != nil {
+		return nil, err
+	}
 	if containsString(convertForeignKeysToConstraintNames(desiredTable.foreignKeys), desiredForeignKey.constraintName) {
 		return nil, fmt.Errorf("index '%s' is doubly created against table '%s': '%s'", desiredForeignKey.constraintName, tableName, statement)
 	}
-- 
2.43.0


From 4c5646bc77a000fba6660dbd263c712d159b5e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 08/85] fix: compare string literals in views, policies and
 triggers exactly

---
 schema/generator.go | 45 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index d28bbff..a4ca8f6 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -661,7 +661,7 @@ func (g *Generator) generateDDLsForCreateView(viewName string, desiredView *View
 		ddls = append(ddls, desiredView.statement)
 	} else {
 		// View found. If it's different, create or replace view.
-		if strings.ToLower(currentView.definition) != strings.ToLower(desiredView.definition) {
+		if lowerExceptLiterals(currentView.definition) != lowerExceptLiterals(desiredView.definition) {
 			if g.mode == GeneratorModeSQLite3 || g.mode == GeneratorModeMssql {
 				ddls = append(ddls, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(viewName)))
 				ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", g.escapeTableName(viewName), desiredView.definition))
@@ -1371,8 +1371,8 @@ func areSameTriggerDefinition(triggerA, triggerB *Trigger) bool {
 		return false
 	}
 	for i := 0; i < len(triggerA.body); i++ {
-		bodyA := strings.ToLower(strings.Replace(triggerA.body[i], " ", "", -1))
-		bodyB := strings.ToLower(strings.Replace(triggerB.body[i], " ", "", -1))
+		bodyA := mapExceptLiterals(triggerA.body[i], lowerWithoutSpaces)
+		bodyB := mapExceptLiterals(triggerB.body[i], lowerWithoutSpaces)
 		if bodyA != bodyB {
 			return false
 		}
@@ -1380,6 +1380,41 @@ func areSameTriggerDefinition(triggerA, triggerB *Trigger) bool {
 	return true
 }
 
+func lowerWithoutSpaces(sql string) string {
+	return strings.ToLower(strings.Replace(sql, " ", "", -1))
+}
+
+// Lower the case of printed SQL for comparison, leaving string literals as they are.
+func lowerExceptLiterals(sql string) string {
+	return mapExceptLiterals(sql, strings.ToLower)
+}
+
+// Apply a function to printed SQL, leaving string literals as they are.
+func mapExceptLiterals(sql string, f func(string) string) string {
+	var ret strings.Builder
+	for len(sql) > 0 {
+		start := strings.IndexByte(sql, '\'')
+		if start < 0 {
+			break
+		}
+		end := start + 1
+		for end < len(sql) && sql[end] != '\'' {
+			if sql[end] == '\\' {
+				end++
+			}
+			end++
+		}
+		if end >= len(sql) {
+			break
+		}
+		ret.WriteString(f(sql[:start]))
+		ret.WriteString(sql[start : end+1])
+		sql = sql[end+1:]
+	}
+	ret.WriteString(f(sql))
+	return ret.String()
+}
+
 func isNullValue(value *Value) bool {
 	return value != nil && value.valueType == ValueTypeValArg && string(value.raw) == "null"
 }
@@ -1475,10 +1510,10 @@ func areSamePolicies(policyA, policyB Policy) bool {
 	if strings.ToLower(policyA.permissive) != strings.ToLower(policyB.permissive) {
 		return false
 	}
-	if strings.ToLower(policyA.using) != strings.ToLower(policyB.using) {
+	if lowerExceptLiterals(policyA.using) != lowerExceptLiterals(policyB.using) {
 		return fmt.Sprintf("(%s)", policyA.using) == policyB.using
 	}
-	if strings.ToLower(policyA.withCheck) != strings.ToLower(policyB.withCheck) {
+	if lowerExceptLiterals(policyA.withCheck) != lowerExceptLiterals(policyB.withCheck) {
 		return fmt.Sprintf("(%s)", policyA.withCheck) == policyB.withCheck
 	}
 	if len(policyA.roles) != len(policyB.roles) {
-- 
2.43.0


From 44c59b217bdd7a59bc5f308b1bc5a79ad89457be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 09/85] fix: emit numeric defaults as written instead of
 rounding or truncating them

---
 schema/generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index a4ca8f6..36782dd 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1679,9 +1679,9 @@ func generateDefaultDefinition(defaultVal Value) (string, error) {
 	case ValueTypeStr:
 		return fmt.Sprintf("DEFAULT '%s'", defaultVal.strVal), nil
 	case ValueTypeInt:
-		return fmt.Sprintf("DEFAULT %d", defaultVal.intVal), nil
+		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeFloat:
-		return fmt.Sprintf("DEFAULT %f", defaultVal.floatVal), nil
+		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeBit:
 		if defaultVal.bitVal {
 			return "DEFAULT b'1'", nil
-- 
2.43.0


From 48979d8d95a2755c41938e6be7a7cd290d534d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:10 +0000
Subject: [PATCH 10/85] fix: support boolean defaults of added and changed
 columns

---
 schema/generator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 36782dd..a0b4f2d 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1688,6 +1688,8 @@ func generateDefaultDefinition(defaultVal Value) (string, error) {
 		} else {
 			return "DEFAULT b'0'", nil
 		}
+	case ValueTypeBool:
+		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeValArg: // NULL, CURRENT_TIMESTAMP, ...
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	default:
-- 
2.43.0


From 514a8d6f39c2e8a6439de43210a7a59f45f9bfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 11/85] fix: detect a change of the scale of a column

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index a0b4f2d..14ab71a 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1301,8 +1301,8 @@ func (g *Generator) haveSameDataType(current Column, desired Column) bool {
 	return g.normalizeDataType(current.typeName) == g.normalizeDataType(desired.typeName) &&
 		reflect.DeepEqual(current.enumValues, desired.enumValues) &&
 		(current.length == nil || desired.length == nil || current.length.intVal == desired.length.intVal) && // detect change column only when both are set explicitly. TODO: maybe `current.length == nil` case needs another care
+		(current.scale == nil || desired.scale == nil || current.scale.intVal == desired.scale.intVal) &&
 		current.array == desired.array
-	// TODO: scale
 }
 
 func areSameCheckDefinition(checkA *CheckDefinition, checkB *CheckDefinition) bool {
-- 
2.43.0


From da1e75317f7a6fd5c23cb99e53c7b7ea7cbeda5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:14 +0000
Subject: [PATCH 12/85] fix: postgres: detect and keep WITH TIME ZONE when
 changing a column

---
 schema/generator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 14ab71a..a15dde8 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -333,9 +333,12 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					ddls = append(ddls, ddl)
 				}
 			case GeneratorModePostgres:
-				if !g.haveSameDataType(*currentColumn, desiredColumn) {
+				if !g.haveSameDataType(*currentColumn, desiredColumn) || currentColumn.timezone != desiredColumn.timezone {
 					// Change type
 					ddl := fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s TYPE %s", g.escapeTableName(desired.table.name), g.escapeSQLName(currentColumn.name), generateDataType(desiredColumn))
+					if desiredColumn.timezone {
+						ddl += " WITH TIME ZONE"
+					}
 					ddls = append(ddls, ddl)
 				}
 
-- 
2.43.0


From 2262058d0591f1b5004022bdb3e8745bfc8c73c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:16 +0000
Subject: [PATCH 13/85] fix: mssql: drop the check constraint of a column
 before the column

---
 schema/generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index a15dde8..96adae3 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -217,9 +217,13 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 func (g *Generator) generateDDLsForAbsentColumn(currentTable *Table, columnName string) []string {
 	ddls := []string{}
 
-	// Only MSSQL has column default constraints. They need to be deleted before dropping the column.
+	// Only MSSQL has column default constraints. They and check constraints need to be deleted before dropping the column.
 	if g.mode == GeneratorModeMssql {
 		for _, column := range currentTable.columns {
+			if column.name == columnName && column.check != nil && column.check.constraintName != "" {
+				ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), column.check.constraintName)
+				ddls = append(ddls, ddl)
+			}
 			if column.name == columnName && column.defaultDef != nil && column.defaultDef.constraintName != "" {
 				ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(column.defaultDef.constraintName))
 				ddls = append(ddls, ddl)
-- 
2.43.0


From b9615f5d5c2b2ae0d6b0605e2d29ccfa2009b7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 14/85] fix: detect a change of the last digits of a default

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 96adae3..6656aee 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1356,7 +1356,7 @@ func areSameValue(current, desired *Value) bool {
 	// NOTE: -1 can be changed to '-1' in show create table and valueType is not reliable
 	currentRaw := string(current.raw)
 	desiredRaw := string(desired.raw)
-	if desired.valueType == ValueTypeFloat && len(currentRaw) > len(desiredRaw) {
+	if desired.valueType == ValueTypeFloat && len(currentRaw) > len(desiredRaw) && strings.Trim(currentRaw[len(desiredRaw):], "0") == "" {
 		// Round "0.00" to "0.0" for comparison with desired.
 		// Ideally we should do this seeing precision in a data type.
 		currentRaw = currentRaw[0:len(desiredRaw)]
-- 
2.43.0


From a0734f082ff59304cabad44c38163e39462aaae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:48 +0000
Subject: [PATCH 15/85] fix: detect a change of the columns or of the table of
 a foreign key

---
 schema/generator.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 6656aee..0395c3c 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -541,6 +541,11 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				switch g.mode {
 				case GeneratorModeMysql:
 					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP FOREIGN KEY %s", g.escapeTableName(desired.table.name), g.escapeSQLName(currentForeignKey.constraintName)))
+					if !reflect.DeepEqual(currentForeignKey.indexColumns, desiredForeignKey.indexColumns) &&
+						findIndexByName(currentTable.indexes, desiredForeignKey.constraintName) != nil && findIndexByName(desired.table.indexes, desiredForeignKey.constraintName) == nil {
+						// The index made for the foreign key is on other columns
+						ddls = append(ddls, g.generateDropIndex(desired.table.name, desiredForeignKey.constraintName))
+					}
 				case GeneratorModePostgres, GeneratorModeMssql:
 					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(currentForeignKey.constraintName)))
 				default:
@@ -1506,7 +1511,14 @@ func (g *Generator) areSameForeignKeys(foreignKeyA ForeignKey, foreignKeyB Forei
 	if foreignKeyA.notForReplication != foreignKeyB.notForReplication {
 		return false
 	}
-	// TODO: check index, reference
+	if foreignKeyA.referenceName != foreignKeyB.referenceName {
+		return false
+	}
+	// Composite foreign keys are not dumped as such except on MySQL
+	if g.mode == GeneratorModeMysql || len(foreignKeyA.indexColumns) == len(foreignKeyB.indexColumns) {
+		return reflect.DeepEqual(foreignKeyA.indexColumns, foreignKeyB.indexColumns) &&
+			reflect.DeepEqual(foreignKeyA.referenceColumns, foreignKeyB.referenceColumns)
+	}
 	return true
 }
 
-- 
2.43.0


From d45504840e2dde46c0f6f399c6af985c6e4a2e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:49 +0000
Subject: [PATCH 16/85] fix: mssql: replace a changed primary key instead of
 adding a second one or dropping it

---
 schema/generator.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 0395c3c..8415dbc 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -493,6 +493,10 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 			case GeneratorModePostgres:
 				tableName := strings.SplitN(desired.table.name, ".", 2)[1] // without schema
 				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(tableName+"_pkey")))
+			case GeneratorModeMssql:
+				if desiredPrimaryKey != nil { // otherwise dropped as an obsoleted index
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(currentPrimaryKey.name)))
+				}
 			default:
 			}
 		}
@@ -759,6 +763,10 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 	ddls := []string{}
 
 	if currentIndex.primary {
+		if g.mode == GeneratorModeMssql && desiredTable.PrimaryKey() != nil {
+			return ddls, nil // It has been replaced as needed.
+		}
+
 		var primaryKeyColumn *Column
 		for _, column := range desiredTable.columns {
 			if column.keyOption == ColumnKeyPrimary {
-- 
2.43.0


From 78096773fdd8bdd063725767d5cb94c3b30e706f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:51 +0000
Subject: [PATCH 17/85] fix: mssql: replace a column that gains or loses
 IDENTITY

---
 schema/generator.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 8415dbc..9bc94a5 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -428,17 +428,13 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 
 				// IDENTITY
 				if !areSameIdentityDefinition(currentColumn.identity, desiredColumn.identity) {
-					if currentColumn.identity != nil {
-						// remove
-						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP COLUMN %s", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
-					}
-					if desiredColumn.identity != nil {
-						definition, err := g.generateColumnDefinition(desiredColumn, true)
-						if err != nil {
-							return ddls, err
-						}
-						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ADD %s", g.escapeTableName(desired.table.name), definition))
+					// The property cannot be altered. Replace the column.
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP COLUMN %s", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
+					definition, err := g.generateColumnDefinition(desiredColumn, true)
+					if err != nil {
+						return ddls, err
 					}
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ADD %s", g.escapeTableName(desired.table.name), definition))
 				}
 
 				// DEFAULT
-- 
2.43.0


From 726e1f0496936cd2edeeaf707f4957d29b51701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:33 +0000
Subject: [PATCH 18/85] fix: mssql: keep the name of a default constraint when
 adding its column

---
 schema/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 9bc94a5..9116bd8 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -857,6 +857,9 @@ func (g *Generator) generateColumnDefinition(column Column, enableUnique bool) (
 		if err != nil {
 			return "", fmt.Errorf("%s in column: %#v", err.Error(), column)
 		}
+		if g.mode == GeneratorModeMssql && column.defaultDef.constraintName != "" {
+			definition += "CONSTRAINT " + g.escapeSQLName(column.defaultDef.constraintName) + " "
+		}
 		definition += def + " "
 	}
 
-- 
2.43.0


From 862e698d087edb24f506ca478b2e9a677958e5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:07 +0000
Subject: [PATCH 19/85] fix: postgres: remove the identity of a column before
 making it nullable

---
 schema/generator.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 9116bd8..44892fe 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -346,6 +346,11 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					ddls = append(ddls, ddl)
 				}
 
+				if currentColumn.identity != nil && desiredColumn.identity == nil {
+					// An identity column is NOT NULL. Remove the identity first.
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP IDENTITY IF EXISTS", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
+				}
+
 				if !isPrimaryKey(*currentColumn, currentTable) { // Primary Key implies NOT NULL
 					if g.notNull(*currentColumn) && !g.notNull(desiredColumn) {
 						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP NOT NULL", g.escapeTableName(desired.table.name), g.escapeSQLName(currentColumn.name)))
@@ -363,10 +368,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 							alter += " (" + generateSequenceClause(desiredColumn.sequence) + ")"
 						}
 						ddls = append(ddls, alter)
-					} else if desiredColumn.identity == nil {
-						// remove
-						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP IDENTITY IF EXISTS", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
-					} else {
+					} else if desiredColumn.identity != nil {
 						// set
 						// not support changing sequence
 						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s SET GENERATED %s", g.escapeTableName(desired.table.name), g.escapeSQLName(desiredColumn.name), desiredColumn.identity.behavior))
-- 
2.43.0


From 8b09b3c1a7a9d47c7f4e0bc9fcdf9e5d1cfdbb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 20/85] fix: postgres: make a column nullable that leaves the
 primary key

---
 schema/generator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 44892fe..7581835 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -491,6 +491,12 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 			case GeneratorModePostgres:
 				tableName := strings.SplitN(desired.table.name, ".", 2)[1] // without schema
 				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(tableName+"_pkey")))
+				for _, column := range desired.table.columns { // The columns of the dropped key are still NOT NULL
+					currentColumn := findColumnByName(currentTable.columns, column.name)
+					if currentColumn != nil && isPrimaryKey(*currentColumn, currentTable) && !isPrimaryKey(column, desired.table) && !g.notNull(column) {
+						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP NOT NULL", g.escapeTableName(desired.table.name), g.escapeSQLName(column.name)))
+					}
+				}
 			case GeneratorModeMssql:
 				if desiredPrimaryKey != nil { // otherwise dropped as an obsoleted index
 					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(currentPrimaryKey.name)))
-- 
2.43.0


From 1dd4500e1337bab28150ebd50e79fa77cc232241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:59 +0000
Subject: [PATCH 21/85] fix: drop foreign keys of remaining tables before the
 tables they refer to

---
 schema/generator.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 7581835..239e618 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -144,17 +144,13 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 		}
 	}
 
-	// Clean up obsoleted tables, indexes, columns
+	// Clean up obsoleted foreign keys prior to the tables they refer to and the indexes they use
 	for _, currentTable := range g.currentTables {
 		desiredTable := findTableByName(g.desiredTables, currentTable.name)
 		if desiredTable == nil {
-			// Obsoleted table found. Drop table.
-			ddls = append(ddls, fmt.Sprintf("DROP TABLE %s", g.escapeTableName(currentTable.name)))
-			g.currentTables = removeTableByName(g.currentTables, currentTable.name)
 			continue
 		}
 
-		// Table is expected to exist. Drop foreign keys prior to index deletion
 		for _, foreignKey := range currentTable.foreignKeys {
 			if containsString(convertForeignKeysToConstraintNames(desiredTable.foreignKeys), foreignKey.constraintName) {
 				continue // Foreign key is expected to exist.
@@ -165,8 +161,19 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 			ddls = append(ddls, foreignKeyDDLs...)
 			// TODO: simulate to remove foreign key from `currentTable.foreignKeys`?
 		}
+	}
+
+	// Clean up obsoleted tables, indexes, columns
+	for _, currentTable := range g.currentTables {
+		desiredTable := findTableByName(g.desiredTables, currentTable.name)
+		if desiredTable == nil {
+			// Obsoleted table found. Drop table.
+			ddls = append(ddls, fmt.Sprintf("DROP TABLE %s", g.escapeTableName(currentTable.name)))
+			g.currentTables = removeTableByName(g.currentTables, currentTable.name)
+			continue
+		}
 
-		// Check indexes
+		// Table is expected to exist. Check indexes
 		for _, index := range currentTable.indexes {
 			if containsString(convertIndexesToIndexNames(desiredTable.indexes), index.name) ||
 				containsString(convertForeignKeysToIndexNames(desiredTable.foreignKeys), index.name) {
-- 
2.43.0


From 902f218725b27db26f2dc5c594117629d86d758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:51 +0000
Subject: [PATCH 22/85] fix: do not crash on short or empty comments

---
 sqlparser/comments.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlparser/comments.go b/sqlparser/comments.go
index a0f7f1b..9f63408 100644
--- a/sqlparser/comments.go
+++ b/sqlparser/comments.go
@@ -170,6 +170,9 @@ func ExtractMysqlComment(sql string) (version string, innerSQL string) {
 		digitCount++
 		return !unicode.IsDigit(c) || digitCount == 6
 	})
+	if endOfVersionIndex < 0 {
+		endOfVersionIndex = len(sql)
+	}
 	version = sql[0:endOfVersionIndex]
 	innerSQL = strings.TrimFunc(sql[endOfVersionIndex:], unicode.IsSpace)
 
@@ -197,7 +200,7 @@ func ExtractCommentDirectives(comments Comments) CommentDirectives {
 
 	for _, comment := range comments {
 		commentStr := string(comment)
-		if commentStr[0:5] != commentDirectivePreamble {
+		if !strings.HasPrefix(commentStr, commentDirectivePreamble) {
 			continue
 		}
 
-- 
2.43.0


From 90896afef08ddc386d32f4feb22b1b40ad44c913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:51 +0000
Subject: [PATCH 23/85] fix: postgres: print a cast without an expression
 instead of crashing

---
 sqlparser/ast.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 299e0ec..330f4f1 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -2985,6 +2985,10 @@ type ConvertExpr struct {
 
 // Format formats the node.
 func (node *ConvertExpr) Format(buf *TrackedBuffer) {
+	if node.Expr == nil {
+		buf.Myprintf("::%v", node.Type)
+		return
+	}
 	buf.Myprintf("convert(%v, %v)", node.Expr, node.Type)
 }
 
-- 
2.43.0


From f81db0911abd7f7e143bee193b0a2271c55e85c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:51 +0000
Subject: [PATCH 24/85] fix: print boolean values instead of crashing

---
 sqlparser/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 330f4f1..f019839 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -2493,7 +2493,7 @@ func (node *SQLVal) Format(buf *TrackedBuffer) {
 	case ValArg:
 		buf.WriteArg(string(node.Val))
 	case ValBool:
-		buf.Myprintf("%t", node.Val)
+		buf.Myprintf("%s", []byte(node.Val))
 	default:
 		panic("unexpected")
 	}
-- 
2.43.0


From 73a4f149c77963a33c5bdcd853205366c3f9b8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:54 +0000
Subject: [PATCH 25/85] fix: keep the bytes of names that are not ASCII letters
 when quoting them

---
 sqlparser/ast.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index f019839..2ac42be 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -3576,9 +3576,9 @@ func (node *TableIdent) UnmarshalJSON(b []byte) error {
 func Backtick(in string) string {
 	var buf bytes.Buffer
 	buf.WriteByte('`')
-	for _, c := range in {
-		buf.WriteRune(c)
-		if c == '`' {
+	for i := 0; i < len(in); i++ {
+		buf.WriteByte(in[i])
+		if in[i] == '`' {
 			buf.WriteByte('`')
 		}
 	}
@@ -3592,7 +3592,8 @@ func formatID(buf *TrackedBuffer, original, lowered string) {
 		isDbSystemVariable = true
 	}
 
-	for i, c := range original {
+	for i := 0; i < len(original); i++ {
+		c := original[i]
 		if !isLetter(uint16(c)) && (!isDbSystemVariable || !isCarat(uint16(c))) {
 			if i == 0 || !isDigit(uint16(c)) {
 				goto mustEscape
@@ -3607,9 +3608,9 @@ func formatID(buf *TrackedBuffer, original, lowered string) {
 
 mustEscape:
 	buf.WriteByte('`')
-	for _, c := range original {
-		buf.WriteRune(c)
-		if c == '`' {
+	for i := 0; i < len(original); i++ {
+		buf.WriteByte(original[i])
+		if original[i] == '`' {
 			buf.WriteByte('`')
 		}
 	}
-- 
2.43.0


From 6a722d8d9f838521bc4afb3c94dd5642236affc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 26/85] fix: read a backslash in a literal as an escape in
 MySQL only

---
 sqlparser/token.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sqlparser/token.go b/sqlparser/token.go
index fb64320..2c1e045 100644
--- a/sqlparser/token.go
+++ b/sqlparser/token.go
@@ -850,6 +850,8 @@ exit:
 
 func (tkn *Tokenizer) scanString(delim uint16, typ int) (int, []byte) {
 	var buffer bytes2.Buffer
+	// A backslash is an ordinary character of a standard SQL literal.
+	backslash := tkn.mode == ParserModeMysql
 	for {
 		ch := tkn.lastChar
 		if ch == eofChar {
@@ -857,14 +859,14 @@ func (tkn *Tokenizer) scanString(delim uint16, typ int) (int, []byte) {
 			return LEX_ERROR, buffer.Bytes()
 		}
 
-		if ch != delim && ch != '\\' {
+		if ch != delim && (!backslash || ch != '\\') {
 			buffer.WriteByte(byte(ch))
 
 			// Scan ahead to the next interesting character.
 			start := tkn.bufPos
 			for ; tkn.bufPos < tkn.bufSize; tkn.bufPos++ {
 				ch = uint16(tkn.buf[tkn.bufPos])
-				if ch == delim || ch == '\\' {
+				if ch == delim || (backslash && ch == '\\') {
 					break
 				}
 			}
@@ -884,7 +886,7 @@ func (tkn *Tokenizer) scanString(delim uint16, typ int) (int, []byte) {
 		}
 		tkn.next() // Read one past the delim or escape character.
 
-		if ch == '\\' {
+		if backslash && ch == '\\' {
 			if tkn.lastChar == eofChar {
 				// String terminates mid escape character.
 				return LEX_ERROR, buffer.Bytes()
-- 
2.43.0


From 38429530149759930a1c1c092d8ec6d4b5a6602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 27/85] fix: keep the backslash of an escaped wildcard

---
 sqlparser/token.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlparser/token.go b/sqlparser/token.go
index 2c1e045..54ae9ee 100644
--- a/sqlparser/token.go
+++ b/sqlparser/token.go
@@ -891,6 +891,10 @@ func (tkn *Tokenizer) scanString(delim uint16, typ int) (int, []byte) {
 				// String terminates mid escape character.
 				return LEX_ERROR, buffer.Bytes()
 			}
+			if tkn.lastChar == '%' || tkn.lastChar == '_' {
+				// \% and \_ keep the backslash, which is for patterns.
+				buffer.WriteByte('\\')
+			}
 			if decodedChar := sqltypes.SQLDecodeMap[byte(tkn.lastChar)]; decodedChar == sqltypes.DontEscape {
 				ch = tkn.lastChar
 			} else {
-- 
2.43.0


From b8b19e5e8d2afd7f5002c27cdbbd6786a2fed261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 28/85] fix: do not split statements within a MySQL specific
 comment

---
 sqlparser/ast.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 2ac42be..c239317 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -107,6 +107,9 @@ func SplitStatement(blob string) (string, string, error) {
 	tkn := 0
 	for {
 		tkn, _ = tokenizer.Scan()
+		if tkn == ';' && tokenizer.specialComment != nil {
+			continue // within a /*! comment */
+		}
 		if tkn == 0 || tkn == ';' || tkn == eofChar {
 			break
 		}
@@ -131,6 +134,9 @@ func SplitStatementToPieces(blob string) (pieces []string, err error) {
 	stmtBegin := 0
 	for {
 		tkn, _ = tokenizer.Scan()
+		if tkn == ';' && tokenizer.specialComment != nil {
+			continue // within a /*! comment */
+		}
 		if tkn == ';' {
 			stmt = blob[stmtBegin : tokenizer.Position-2]
 			pieces = append(pieces, stmt)
-- 
2.43.0


From c8254ea8d5a1ca4398a017f07efbfaa73df14415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 29/85] fix: do not lose a last statement of one character when
 splitting

---
 sqlparser/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index c239317..b71bb6f 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -145,7 +145,7 @@ func SplitStatementToPieces(blob string) (pieces []string, err error) {
 		} else if tkn == 0 || tkn == eofChar {
 			blobTail := tokenizer.Position - 2
 
-			if stmtBegin < blobTail {
+			if stmtBegin <= blobTail {
 				stmt = blob[stmtBegin : blobTail+1]
 				pieces = append(pieces, stmt)
 			}
-- 
2.43.0


From 39de5c4d43ecc59b8aee4cddd1796a241faa23f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:08 +0000
Subject: [PATCH 30/85] fix: do not split DDLs within literals, quoted names
 and comments

---
 schema/parser.go | 25 +++++++++++--------------
 sqlparser/ast.go | 30 ++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/schema/parser.go b/schema/parser.go
index d5eac91..b3dc4e2 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -4,7 +4,6 @@ package schema
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 
@@ -276,24 +275,25 @@ func parseIndex(stmt *sqlparser.DDL) (Index, error) {
 	}, nil
 }
 
-// Parse DDL like `CREATE TABLE` or `ALTER TABLE`.
-// This doesn't support destructive DDL like `DROP TABLE`.
-func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
-	var parserMode sqlparser.ParserMode
+func parserMode(mode GeneratorMode) sqlparser.ParserMode {
 	switch mode {
 	case GeneratorModeMysql:
-		parserMode = sqlparser.ParserModeMysql
+		return sqlparser.ParserModeMysql
 	case GeneratorModePostgres:
-		parserMode = sqlparser.ParserModePostgres
+		return sqlparser.ParserModePostgres
 	case GeneratorModeSQLite3:
-		parserMode = sqlparser.ParserModeSQLite3
+		return sqlparser.ParserModeSQLite3
 	case GeneratorModeMssql:
-		parserMode = sqlparser.ParserModeMssql
+		return sqlparser.ParserModeMssql
 	default:
 		panic("unrecognized parser mode")
 	}
+}
 
-	stmt, err := sqlparser.ParseStrictDDLWithMode(ddl, parserMode)
+// Parse DDL like `CREATE TABLE` or `ALTER TABLE`.
+// This doesn't support destructive DDL like `DROP TABLE`.
+func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
+	stmt, err := sqlparser.ParseStrictDDLWithMode(ddl, parserMode(mode))
 	if err != nil {
 		return nil, err
 	}
@@ -422,10 +422,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 // Parse `ddls`, which is expected to `;`-concatenated DDLs
 // and not to include destructive DDL.
 func parseDDLs(mode GeneratorMode, str string) ([]DDL, error) {
-	re := regexp.MustCompilePOSIX("^--.*")
-	str = re.ReplaceAllString(str, "")
-
-	ddls := strings.Split(str, ";")
+	ddls := sqlparser.SplitDDLs(str, parserMode(mode))
 	result := []DDL{}
 
 	for _, ddl := range ddls {
diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index b71bb6f..73f4285 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -157,6 +157,36 @@ func SplitStatementToPieces(blob string) (pieces []string, err error) {
 	return
 }
 
+// SplitDDLs splits DDLs at the semicolons that separate them, which are those
+// outside literals, quoted names and comments, and removes the comments that
+// begin a line with "--".
+func SplitDDLs(blob string, mode ParserMode) []string {
+	ddls := []string{}
+	tokenizer := NewStringTokenizer(blob, mode)
+	ddl := ""
+	begin := 0
+	for {
+		tkn, val := tokenizer.Scan()
+		if tokenizer.specialComment != nil {
+			continue // within a /*! comment */
+		}
+		end := tokenizer.Position - 1
+		if tkn == COMMENT && strings.HasPrefix(string(val), "--") {
+			start := end - len(val)
+			if start == 0 || blob[start-1] == '\n' {
+				ddl += blob[begin:start]
+				begin = start + len(strings.TrimSuffix(string(val), "\n"))
+			}
+		} else if tkn == ';' {
+			ddls = append(ddls, ddl+blob[begin:end-1])
+			ddl = ""
+			begin = end
+		} else if tkn == 0 || tkn == eofChar {
+			return append(ddls, ddl+blob[begin:])
+		}
+	}
+}
+
 // SQLNode defines the interface for all nodes
 // generated by the parser.
 type SQLNode interface {
-- 
2.43.0


From cd6d2f64e3a761a09e8db1c186bd6b7b608d98a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:11 +0000
Subject: [PATCH 31/85] fix: double the closing quote within a quoted name

---
 schema/generator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 239e618..f6b40ce 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1112,11 +1112,11 @@ func (g *Generator) escapeTableName(name string) string {
 func (g *Generator) escapeSQLName(name string) string {
 	switch g.mode {
 	case GeneratorModePostgres:
-		return fmt.Sprintf("\"%s\"", name)
+		return "\"" + strings.ReplaceAll(name, "\"", "\"\"") + "\""
 	case GeneratorModeMssql:
-		return fmt.Sprintf("[%s]", name)
+		return "[" + strings.ReplaceAll(name, "]", "]]") + "]"
 	default:
-		return fmt.Sprintf("`%s`", name)
+		return "`" + strings.ReplaceAll(name, "`", "``") + "`"
 	}
 }
 
-- 
2.43.0


From a4fd0fbffdc8aca40228a8f7a3bf20e2087743aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 32/85] fix: escape quotes and backslashes in string defaults

---
 schema/generator.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index f6b40ce..4b1bd26 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -389,7 +389,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP DEFAULT", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
 					} else {
 						// set
-						definition, err := generateDefaultDefinition(*desiredColumn.defaultDef.value)
+						definition, err := g.generateDefaultDefinition(*desiredColumn.defaultDef.value)
 						if err != nil {
 							return ddls, err
 						}
@@ -454,7 +454,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					}
 					if desiredColumn.defaultDef != nil {
 						// set
-						definition, err := generateDefaultDefinition(*desiredColumn.defaultDef.value)
+						definition, err := g.generateDefaultDefinition(*desiredColumn.defaultDef.value)
 						if err != nil {
 							return ddls, err
 						}
@@ -868,7 +868,7 @@ func (g *Generator) generateColumnDefinition(column Column, enableUnique bool) (
 	}
 
 	if column.defaultDef != nil && column.defaultDef.value != nil {
-		def, err := generateDefaultDefinition(*column.defaultDef.value)
+		def, err := g.generateDefaultDefinition(*column.defaultDef.value)
 		if err != nil {
 			return "", fmt.Errorf("%s in column: %#v", err.Error(), column)
 		}
@@ -1109,6 +1109,14 @@ func (g *Generator) escapeTableName(name string) string {
 	}
 }
 
+// Quote a string literal. A backslash is an escape in MySQL only.
+func escapeSQLString(mode GeneratorMode, str string) string {
+	if mode == GeneratorModeMysql {
+		str = strings.ReplaceAll(str, "\\", "\\\\")
+	}
+	return "'" + strings.ReplaceAll(str, "'", "''") + "'"
+}
+
 func (g *Generator) escapeSQLName(name string) string {
 	switch g.mode {
 	case GeneratorModePostgres:
@@ -1715,10 +1723,10 @@ func generateSequenceClause(sequence *Sequence) string {
 	return strings.TrimSpace(ddl)
 }
 
-func generateDefaultDefinition(defaultVal Value) (string, error) {
+func (g *Generator) generateDefaultDefinition(defaultVal Value) (string, error) {
 	switch defaultVal.valueType {
 	case ValueTypeStr:
-		return fmt.Sprintf("DEFAULT '%s'", defaultVal.strVal), nil
+		return fmt.Sprintf("DEFAULT %s", escapeSQLString(g.mode, defaultVal.strVal)), nil
 	case ValueTypeInt:
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeFloat:
-- 
2.43.0


From 8a044024bb59b24c7a7e8afb0dbeb0ff63dd1da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 33/85] fix: escape quotes and backslashes in ENUM and SET
 values

---
 sqlparser/parser.go |  4 ++--
 sqlparser/parser.y  |  4 ++--
 sqlparser/token.go  | 10 ++++++++++
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index afa3a4d..09cc18c 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -4834,13 +4834,13 @@ yydefault:
 //line sqlparser/parser.y:1468
 		{
 			yyVAL.strs = make([]string, 0, 4)
-			yyVAL.strs = append(yyVAL.strs, "'"+string(yyDollar[1].bytes)+"'")
+			yyVAL.strs = append(yyVAL.strs, quoteEnumValue(yylex, yyDollar[1].bytes))
 		}
 	case 242:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:1473
 		{
-			yyVAL.strs = append(yyDollar[1].strs, "'"+string(yyDollar[3].bytes)+"'")
+			yyVAL.strs = append(yyDollar[1].strs, quoteEnumValue(yylex, yyDollar[3].bytes))
 		}
 	case 243:
 		yyDollar = yyS[yypt-0 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index b148377..3dc2cec 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1467,11 +1467,11 @@ enum_values:
   STRING
   {
     $$ = make([]string, 0, 4)
-    $$ = append($$, "'" + string($1) + "'")
+    $$ = append($$, quoteEnumValue(yylex, $1))
   }
 | enum_values ',' STRING
   {
-    $$ = append($1, "'" + string($3) + "'")
+    $$ = append($1, quoteEnumValue(yylex, $3))
   }
 
 length_opt:
diff --git a/sqlparser/token.go b/sqlparser/token.go
index 54ae9ee..df73d77 100644
--- a/sqlparser/token.go
+++ b/sqlparser/token.go
@@ -21,6 +21,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"strings"
 
 	"github.com/k0kubun/sqldef/sqlparser/dependency/bytes2"
 	"github.com/k0kubun/sqldef/sqlparser/dependency/sqltypes"
@@ -1010,6 +1011,15 @@ func (tkn *Tokenizer) reset() {
 	tkn.ForceEOF = false
 }
 
+// quoteEnumValue quotes a value of an ENUM or SET type in the mode of the tokenizer.
+func quoteEnumValue(yylex interface{}, val []byte) string {
+	str := string(val)
+	if yylex.(*Tokenizer).mode == ParserModeMysql {
+		str = strings.ReplaceAll(str, "\\", "\\\\")
+	}
+	return "'" + strings.ReplaceAll(str, "'", "''") + "'"
+}
+
 func isLetter(ch uint16) bool {
 	return 'a' <= ch && ch <= 'z' || 'A' <= ch && ch <= 'Z' || ch == '_' || ch == '@'
 }
-- 
2.43.0


From ccd4161c37bd5fe3614fadc5e2ace05b3ea28092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 34/85] fix: escape names and strings of printed function
 calls, options and filters

---
 sqlparser/ast.go    | 11 ++++++-----
 sqlparser/parser.go |  8 ++++----
 sqlparser/parser.y  |  8 ++++----
 sqlparser/token.go  |  4 ++--
 4 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 73f4285..25b1708 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -1467,9 +1467,9 @@ func (node *Show) Format(buf *TrackedBuffer) {
 		opt := node.ShowTablesOpt
 		if opt.DbName != "" {
 			if opt.Filter != nil {
-				buf.Myprintf("show %s%stables from %s %v", opt.Extended, opt.Full, opt.DbName, opt.Filter)
+				buf.Myprintf("show %s%stables from %v %v", opt.Extended, opt.Full, NewTableIdent(opt.DbName), opt.Filter)
 			} else {
-				buf.Myprintf("show %s%stables from %s", opt.Extended, opt.Full, opt.DbName)
+				buf.Myprintf("show %s%stables from %v", opt.Extended, opt.Full, NewTableIdent(opt.DbName))
 			}
 		} else {
 			if opt.Filter != nil {
@@ -1516,7 +1516,7 @@ type ShowFilter struct {
 // Format formats the node.
 func (node *ShowFilter) Format(buf *TrackedBuffer) {
 	if node.Like != "" {
-		buf.Myprintf("like '%s'", node.Like)
+		buf.Myprintf("like %v", NewStrVal([]byte(node.Like)))
 	} else {
 		buf.Myprintf("where %v", node.Filter)
 	}
@@ -2859,7 +2859,8 @@ func (node *FuncExpr) Format(buf *TrackedBuffer) {
 	// Function names should not be back-quoted even
 	// if they match a reserved word. So, print the
 	// name as is.
-	buf.Myprintf("%s(%s%v)", node.Name.String(), distinct, node.Exprs)
+	formatID(buf, node.Name.String(), "")
+	buf.Myprintf("(%s%v)", distinct, node.Exprs)
 }
 
 func (node *FuncExpr) walkSubtree(visit Visit) error {
@@ -3200,7 +3201,7 @@ type Default struct {
 func (node *Default) Format(buf *TrackedBuffer) {
 	buf.Myprintf("default")
 	if node.ColName != "" {
-		buf.Myprintf("(%s)", node.ColName)
+		buf.Myprintf("(%v)", NewColIdent(node.ColName))
 	}
 }
 
diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 09cc18c..925e2c5 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -4834,13 +4834,13 @@ yydefault:
 //line sqlparser/parser.y:1468
 		{
 			yyVAL.strs = make([]string, 0, 4)
-			yyVAL.strs = append(yyVAL.strs, quoteEnumValue(yylex, yyDollar[1].bytes))
+			yyVAL.strs = append(yyVAL.strs, quoteString(yylex, yyDollar[1].bytes))
 		}
 	case 242:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:1473
 		{
-			yyVAL.strs = append(yyDollar[1].strs, quoteEnumValue(yylex, yyDollar[3].bytes))
+			yyVAL.strs = append(yyDollar[1].strs, quoteString(yylex, yyDollar[3].bytes))
 		}
 	case 243:
 		yyDollar = yyS[yypt-0 : yypt+1]
@@ -5413,7 +5413,7 @@ yydefault:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:1922
 		{
-			yyVAL.str = "'" + string(yyDollar[1].bytes) + "'"
+			yyVAL.str = quoteString(yylex, yyDollar[1].bytes)
 		}
 	case 334:
 		yyDollar = yyS[yypt-1 : yypt+1]
@@ -7217,7 +7217,7 @@ yydefault:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:3342
 		{
-			yyVAL.str = " separator '" + string(yyDollar[2].bytes) + "'"
+			yyVAL.str = " separator " + quoteString(yylex, yyDollar[2].bytes)
 		}
 	case 651:
 		yyDollar = yyS[yypt-1 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 3dc2cec..d72715c 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1467,11 +1467,11 @@ enum_values:
   STRING
   {
     $$ = make([]string, 0, 4)
-    $$ = append($$, quoteEnumValue(yylex, $1))
+    $$ = append($$, quoteString(yylex, $1))
   }
 | enum_values ',' STRING
   {
-    $$ = append($1, quoteEnumValue(yylex, $3))
+    $$ = append($1, quoteString(yylex, $3))
   }
 
 length_opt:
@@ -1920,7 +1920,7 @@ table_opt_value:
   }
 | STRING
   {
-    $$ = "'" + string($1) + "'"
+    $$ = quoteString(yylex, $1)
   }
 | INTEGRAL
   {
@@ -3340,7 +3340,7 @@ separator_opt:
   }
 | SEPARATOR STRING
   {
-    $$ = " separator '"+string($2)+"'"
+    $$ = " separator " + quoteString(yylex, $2)
   }
 
 when_expression_list:
diff --git a/sqlparser/token.go b/sqlparser/token.go
index df73d77..2bd7bc2 100644
--- a/sqlparser/token.go
+++ b/sqlparser/token.go
@@ -1011,8 +1011,8 @@ func (tkn *Tokenizer) reset() {
 	tkn.ForceEOF = false
 }
 
-// quoteEnumValue quotes a value of an ENUM or SET type in the mode of the tokenizer.
-func quoteEnumValue(yylex interface{}, val []byte) string {
+// quoteString quotes a string in the mode of the tokenizer.
+func quoteString(yylex interface{}, val []byte) string {
 	str := string(val)
 	if yylex.(*Tokenizer).mode == ParserModeMysql {
 		str = strings.ReplaceAll(str, "\\", "\\\\")
-- 
2.43.0


From 2bb5aa98029cefa019dd54792357e4475652d163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 35/85] fix: print expressions and views in the dialect of the
 database

---
 schema/parser.go | 61 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 11 deletions(-)

diff --git a/schema/parser.go b/schema/parser.go
index b3dc4e2..4cdb707 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -120,8 +120,8 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 		}
 		if parsedCol.Type.Check != nil {
 			column.check = &CheckDefinition{
-				definition:        sqlparser.String(parsedCol.Type.Check.Where.Expr),
-				constraintName:    sqlparser.String(parsedCol.Type.Check.ConstraintName),
+				definition:        formatNode(mode, parsedCol.Type.Check.Where.Expr),
+				constraintName:    parsedCol.Type.Check.ConstraintName.String(),
 				notForReplication: parsedCol.Type.Check.NotForReplication,
 			}
 		}
@@ -208,7 +208,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 	}, nil
 }
 
-func parseIndex(stmt *sqlparser.DDL) (Index, error) {
+func parseIndex(mode GeneratorMode, stmt *sqlparser.DDL) (Index, error) {
 	if stmt.IndexSpec == nil {
 		return Index{}, fmt.Errorf("stmt.IndexSpec was null on parseIndex: %#v", stmt)
 	}
@@ -236,7 +236,7 @@ func parseIndex(stmt *sqlparser.DDL) (Index, error) {
 		if parenExpr, ok := expr.(*sqlparser.ParenExpr); ok {
 			expr = parenExpr.Expr
 		}
-		where = sqlparser.String(expr)
+		where = formatNode(mode, expr)
 	}
 
 	includedColumns := []string{}
@@ -290,6 +290,45 @@ func parserMode(mode GeneratorMode) sqlparser.ParserMode {
 	}
 }
 
+// Print a node in the dialect of the mode.
+func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
+	if mode == GeneratorModeMysql {
+		return sqlparser.String(node)
+	}
+
+	buf := sqlparser.NewTrackedBuffer(func(buf *sqlparser.TrackedBuffer, node sqlparser.SQLNode) {
+		switch node := node.(type) {
+		case *sqlparser.SQLVal:
+			if node.Type == sqlparser.StrVal {
+				buf.WriteString(escapeSQLString(mode, string(node.Val)))
+				return
+			}
+		case sqlparser.ColIdent:
+			formatName(buf, mode, node, node.String())
+			return
+		case sqlparser.TableIdent:
+			formatName(buf, mode, node, node.String())
+			return
+		case *sqlparser.ConvertExpr:
+			if mode == GeneratorModePostgres && node.Expr != nil {
+				buf.Myprintf("cast(%v as %v)", node.Expr, node.Type)
+				return
+			}
+		}
+		node.Format(buf)
+	})
+	buf.Myprintf("%v", node)
+	return buf.String()
+}
+
+// Print a name, which the parser library would quote with backticks when necessary.
+func formatName(buf *sqlparser.TrackedBuffer, mode GeneratorMode, node sqlparser.SQLNode, name string) {
+	if strings.HasPrefix(sqlparser.String(node), "`") {
+		name = (&Generator{mode: mode}).escapeSQLName(name)
+	}
+	buf.WriteString(name)
+}
+
 // Parse DDL like `CREATE TABLE` or `ALTER TABLE`.
 // This doesn't support destructive DDL like `DROP TABLE`.
 func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
@@ -311,7 +350,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 				table:     table,
 			}, nil
 		} else if stmt.Action == "create index" {
-			index, err := parseIndex(stmt)
+			index, err := parseIndex(mode, stmt)
 			if err != nil {
 				return nil, err
 			}
@@ -321,7 +360,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 				index:     index,
 			}, nil
 		} else if stmt.Action == "add index" {
-			index, err := parseIndex(stmt)
+			index, err := parseIndex(mode, stmt)
 			if err != nil {
 				return nil, err
 			}
@@ -331,7 +370,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 				index:     index,
 			}, nil
 		} else if stmt.Action == "add primary key" {
-			index, err := parseIndex(stmt)
+			index, err := parseIndex(mode, stmt)
 			if err != nil {
 				return nil, err
 			}
@@ -371,10 +410,10 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 			}
 			var using, withCheck string
 			if stmt.Policy.Using != nil {
-				using = sqlparser.String(stmt.Policy.Using.Expr)
+				using = formatNode(mode, stmt.Policy.Using.Expr)
 			}
 			if stmt.Policy.WithCheck != nil {
-				withCheck = sqlparser.String(stmt.Policy.WithCheck.Expr)
+				withCheck = formatNode(mode, stmt.Policy.WithCheck.Expr)
 			}
 			return &AddPolicy{
 				statement: ddl,
@@ -392,12 +431,12 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 			return &View{
 				statement:  ddl,
 				name:       stmt.View.Name.Name.String(),
-				definition: sqlparser.String(stmt.View.Definition),
+				definition: formatNode(mode, stmt.View.Definition),
 			}, nil
 		} else if stmt.Action == "create trigger" {
 			body := []string{}
 			for _, triggerStatement := range stmt.Trigger.Body {
-				body = append(body, sqlparser.String(triggerStatement))
+				body = append(body, formatNode(mode, triggerStatement))
 			}
 
 			return &Trigger{
-- 
2.43.0


From ef9be6fb870eaf5c5c67d3452181a56c3a8e6dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 36/85] fix: quote names of CHECK constraints that need it

---
 schema/generator.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 4b1bd26..e6a3de7 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"log"
 	"reflect"
+	"regexp"
 	"sort"
 	"strings"
 )
@@ -400,11 +401,11 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				if !areSameCheckDefinition(currentColumn.check, desiredColumn.check) || currentColumn.checkNoInherit != desiredColumn.checkNoInherit {
 					constraintName := fmt.Sprintf("%s_%s_check", strings.Replace(desired.table.name, "public.", "", 1), desiredColumn.name)
 					if currentColumn.check != nil {
-						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), constraintName)
+						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeConstraintName(constraintName))
 						ddls = append(ddls, ddl)
 					}
 					if desiredColumn.check != nil {
-						ddl := fmt.Sprintf("ALTER TABLE %s ADD CONSTRAINT %s CHECK (%s)", g.escapeTableName(desired.table.name), constraintName, desiredColumn.check.definition)
+						ddl := fmt.Sprintf("ALTER TABLE %s ADD CONSTRAINT %s CHECK (%s)", g.escapeTableName(desired.table.name), g.escapeConstraintName(constraintName), desiredColumn.check.definition)
 						if desiredColumn.checkNoInherit {
 							ddl += " NO INHERIT"
 						}
@@ -418,7 +419,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					constraintName := fmt.Sprintf("%s_%s_check", strings.Replace(desired.table.name, "dbo.", "", 1), desiredColumn.name)
 					if currentColumn.check != nil {
 						currentConstraintName := currentColumn.check.constraintName
-						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), currentConstraintName)
+						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeConstraintName(currentConstraintName))
 						ddls = append(ddls, ddl)
 					}
 					if desiredColumn.check != nil {
@@ -430,7 +431,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 						if desiredColumn.check.notForReplication {
 							replicationDefinition = " NOT FOR REPLICATION"
 						}
-						ddl := fmt.Sprintf("ALTER TABLE %s ADD CONSTRAINT %s CHECK%s (%s)", g.escapeTableName(desired.table.name), desiredConstraintName, replicationDefinition, desiredColumn.check.definition)
+						ddl := fmt.Sprintf("ALTER TABLE %s ADD CONSTRAINT %s CHECK%s (%s)", g.escapeTableName(desired.table.name), g.escapeConstraintName(desiredConstraintName), replicationDefinition, desiredColumn.check.definition)
 						ddls = append(ddls, ddl)
 					}
 				}
@@ -1109,6 +1110,16 @@ func (g *Generator) escapeTableName(name string) string {
 	}
 }
 
+var plainNameRegex = regexp.MustCompile("^[a-z_][a-z0-9_]*$")
+
+// Quote the name of a constraint unless it is plain.
+func (g *Generator) escapeConstraintName(name string) string {
+	if plainNameRegex.MatchString(name) {
+		return name
+	}
+	return g.escapeSQLName(name)
+}
+
 // Quote a string literal. A backslash is an escape in MySQL only.
 func escapeSQLString(mode GeneratorMode, str string) string {
 	if mode == GeneratorModeMysql {
-- 
2.43.0


From 0e57f3d490fc9d1aa0783db1eefd9e36256b165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 37/85] fix: tokenize a stream in MySQL mode

---
 sqlparser/token.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlparser/token.go b/sqlparser/token.go
index 2bd7bc2..ddcf9fe 100644
--- a/sqlparser/token.go
+++ b/sqlparser/token.go
@@ -79,6 +79,7 @@ func NewTokenizer(r io.Reader) *Tokenizer {
 	return &Tokenizer{
 		InStream: r,
 		buf:      make([]byte, defaultBufSize),
+		mode:     ParserModeMysql,
 	}
 }
 
-- 
2.43.0


From c121690b2affc2ea0686712ee9a98a0653a545e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 38/85] fix: mysql: keep the values of a SET column

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index e6a3de7..fb6ea1d 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -834,7 +834,7 @@ func generateDataType(column Column) string {
 		}
 	} else {
 		switch column.typeName {
-		case "enum":
+		case "enum", "set":
 			return fmt.Sprintf("%s(%s)%s", column.typeName, strings.Join(column.enumValues, ", "), suffix)
 		default:
 			return fmt.Sprintf("%s%s", column.typeName, suffix)
-- 
2.43.0


From e2fe5392db30e09f1fd22d07721c9f9fba37bf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 39/85] fix: emit every index option, quote its comment and do
 not crash on USING

---
 schema/ast.go       |  1 +
 schema/generator.go | 18 ++++++++++++++----
 schema/parser.go    |  2 ++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/schema/ast.go b/schema/ast.go
index 0529ecf..e407ee3 100644
--- a/schema/ast.go
+++ b/schema/ast.go
@@ -102,6 +102,7 @@ const (
 type IndexOption struct {
 	optionName string
 	value      *Value
+	using      string
 }
 
 type IndexPartition struct {
diff --git a/schema/generator.go b/schema/generator.go
index fb6ea1d..30df38a 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1009,14 +1009,24 @@ func (g *Generator) generateIndexOptionDefinition(indexOptions []IndexOption) st
 	if len(indexOptions) > 0 {
 		switch g.mode {
 		case GeneratorModeMysql:
-			indexOption := indexOptions[0]
-			if indexOption.optionName == "parser" {
-				indexOption.optionName = "WITH " + indexOption.optionName
+			for _, indexOption := range indexOptions {
+				switch indexOption.optionName {
+				case "using":
+					optionDefinition += fmt.Sprintf(" USING %s", indexOption.using)
+				case "parser":
+					optionDefinition += fmt.Sprintf(" WITH parser %s", string(indexOption.value.raw))
+				case "comment":
+					optionDefinition += fmt.Sprintf(" comment %s", escapeSQLString(g.mode, indexOption.value.strVal))
+				default:
+					optionDefinition += fmt.Sprintf(" %s %s", indexOption.optionName, string(indexOption.value.raw))
+				}
 			}
-			optionDefinition = fmt.Sprintf(" %s %s", indexOption.optionName, string(indexOption.value.raw))
 		case GeneratorModeMssql:
 			options := []string{}
 			for _, indexOption := range indexOptions {
+				if indexOption.value == nil { // e.g. USING
+					continue
+				}
 				var optionValue string
 				switch indexOption.value.valueType {
 				case ValueTypeBool:
diff --git a/schema/parser.go b/schema/parser.go
index 4cdb707..d8f881c 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -153,6 +153,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 				IndexOption{
 					optionName: option.Name,
 					value:      parseValue(option.Value),
+					using:      option.Using,
 				},
 			)
 		}
@@ -251,6 +252,7 @@ func parseIndex(mode GeneratorMode, stmt *sqlparser.DDL) (Index, error) {
 			IndexOption{
 				optionName: option.Name,
 				value:      parseValue(option.Value),
+				using:      option.Using,
 			},
 		)
 	}
-- 
2.43.0


From 6946dd8752069a2824403f557b904224dc526d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 40/85] fix: sqltypes: read integers as decimal numbers

---
 sqlparser/dependency/sqltypes/value.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqlparser/dependency/sqltypes/value.go b/sqlparser/dependency/sqltypes/value.go
index 683b235..6a4c410 100644
--- a/sqlparser/dependency/sqltypes/value.go
+++ b/sqlparser/dependency/sqltypes/value.go
@@ -60,12 +60,12 @@ type Value struct {
 func NewValue(typ querypb.Type, val []byte) (v Value, err error) {
 	switch {
 	case IsSigned(typ):
-		if _, err := strconv.ParseInt(string(val), 0, 64); err != nil {
+		if _, err := strconv.ParseInt(string(val), 10, 64); err != nil {
 			return NULL, err
 		}
 		return MakeTrusted(typ, val), nil
 	case IsUnsigned(typ):
-		if _, err := strconv.ParseUint(string(val), 0, 64); err != nil {
+		if _, err := strconv.ParseUint(string(val), 10, 64); err != nil {
 			return NULL, err
 		}
 		return MakeTrusted(typ, val), nil
@@ -129,11 +129,11 @@ func NewVarBinary(v string) Value {
 // NewIntegral builds an integral type from a string representaion.
 // The type will be Int64 or Uint64. Int64 will be preferred where possible.
 func NewIntegral(val string) (n Value, err error) {
-	signed, err := strconv.ParseInt(val, 0, 64)
+	signed, err := strconv.ParseInt(val, 10, 64)
 	if err == nil {
 		return MakeTrusted(Int64, strconv.AppendInt(nil, signed, 10)), nil
 	}
-	unsigned, err := strconv.ParseUint(val, 0, 64)
+	unsigned, err := strconv.ParseUint(val, 10, 64)
 	if err != nil {
 		return Value{}, err
 	}
-- 
2.43.0


From 52ae7c0b6ad4b931eecafb93a1338c2b1a90b42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 41/85] fix: sqltypes: refuse Inf, NaN and hexadecimal floats

---
 sqlparser/dependency/sqltypes/value.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqlparser/dependency/sqltypes/value.go b/sqlparser/dependency/sqltypes/value.go
index 6a4c410..73d6315 100644
--- a/sqlparser/dependency/sqltypes/value.go
+++ b/sqlparser/dependency/sqltypes/value.go
@@ -18,6 +18,7 @@ limitations under the License.
 package sqltypes
 
 import (
+	"bytes"
 	"encoding/base64"
 	"encoding/json"
 	"fmt"
@@ -73,6 +74,10 @@ func NewValue(typ querypb.Type, val []byte) (v Value, err error) {
 		if _, err := strconv.ParseFloat(string(val), 64); err != nil {
 			return NULL, err
 		}
+		// Inf, NaN and hexadecimal floats are no numbers in SQL.
+		if bytes.ContainsAny(val, "nNxX") {
+			return NULL, fmt.Errorf("invalid number: %q", val)
+		}
 		return MakeTrusted(typ, val), nil
 	case IsQuoted(typ) || typ == Null:
 		return MakeTrusted(typ, val), nil
-- 
2.43.0


From 09949de75b1c0a7b9d4bb3b12cbf1732310971a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 42/85] fix: read the numbers of SET as decimal numbers

---
 sqlparser/analyzer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlparser/analyzer.go b/sqlparser/analyzer.go
index ea228f7..9867bda 100644
--- a/sqlparser/analyzer.go
+++ b/sqlparser/analyzer.go
@@ -315,7 +315,7 @@ func ExtractSetValues(sql string) (keyValues map[SetKey]interface{}, scope strin
 			case StrVal:
 				result[setKey] = strings.ToLower(string(expr.Val))
 			case IntVal:
-				num, err := strconv.ParseInt(string(expr.Val), 0, 64)
+				num, err := strconv.ParseInt(string(expr.Val), 10, 64)
 				if err != nil {
 					return nil, "", err
 				}
-- 
2.43.0


From 09065aecdef3c23571bc778fc8bc0dae8d4bf924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 43/85] fix: walk the order and the limit of a UNION

---
 sqlparser/ast.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 25b1708..d8ee7db 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -471,6 +471,8 @@ func (node *Union) walkSubtree(visit Visit) error {
 		visit,
 		node.Left,
 		node.Right,
+		node.OrderBy,
+		node.Limit,
 	)
 }
 
-- 
2.43.0


From f2b846636248cb267b2f83370f4e0a2d13cc1510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 44/85] fix: mysql: connect with names and passwords that
 contain the separators of a DSN

---
 adapter/mysql/mysql.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index 21fe4fc..bb48ffd 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -14,10 +14,11 @@ type MysqlDatabase struct {
 }
 
 func NewDatabase(config adapter.Config) (adapter.Database, error) {
-	db, err := sql.Open("mysql", mysqlBuildDSN(config))
+	connector, err := driver.NewConnector(mysqlBuildConfig(config))
 	if err != nil {
 		return nil, err
 	}
+	db := sql.OpenDB(connector)
 
 	return &MysqlDatabase{
 		db:     db,
@@ -113,7 +114,8 @@ func (d *MysqlDatabase) Close() error {
 	return d.db.Close()
 }
 
-func mysqlBuildDSN(config adapter.Config) string {
+// A DSN has no way to escape the separators in its parts, so the configuration is passed as it is.
+func mysqlBuildConfig(config adapter.Config) *driver.Config {
 	c := driver.NewConfig()
 	c.User = config.User
 	c.Passwd = config.Password
@@ -125,5 +127,5 @@ func mysqlBuildDSN(config adapter.Config) string {
 		c.Net = "unix"
 		c.Addr = config.Socket
 	}
-	return c.FormatDSN()
+	return c
 }
-- 
2.43.0


From 87f6df208c81380c4b655f8b260b997418c7dfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 45/85] fix: postgres: escape the parts of the data source name
 and connect to a socket directory

---
 adapter/postgres/postgres.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 4d77362..06e8633 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -437,23 +437,31 @@ func postgresBuildDSN(config adapter.Config) string {
 	password := config.Password
 	database := config.DbName
 	host := ""
+	options := url.Values{}
 	if config.Socket == "" {
 		host = fmt.Sprintf("%s:%d", config.Host, config.Port)
 	} else {
-		host = config.Socket
+		// A path is not allowed as a host of a URL.
+		options.Set("host", config.Socket)
+		options.Set("port", strconv.Itoa(config.Port))
 	}
 
-	var options []string
 	if sslmode, ok := os.LookupEnv("PGSSLMODE"); ok { // TODO: have this in adapter.Config, or standardize config with DSN?
-		options = append(options, fmt.Sprintf("sslmode=%s", sslmode)) // TODO: uri escape
+		options.Set("sslmode", sslmode)
 	}
 
 	if sslrootcert, ok := os.LookupEnv("PGSSLROOTCERT"); ok { // TODO: have this in adapter.Config, or standardize config with DSN?
-		options = append(options, fmt.Sprintf("sslrootcert=%s", sslrootcert))
+		options.Set("sslrootcert", sslrootcert)
 	}
 
-	// `QueryEscape` instead of `PathEscape` so that colon can be escaped.
-	return fmt.Sprintf("postgres://%s:%s@%s/%s?%s", url.QueryEscape(user), url.QueryEscape(password), host, database, strings.Join(options, "&"))
+	u := &url.URL{
+		Scheme:   "postgres",
+		User:     url.UserPassword(user, password),
+		Host:     host,
+		Path:     "/" + database,
+		RawQuery: options.Encode(),
+	}
+	return u.String()
 }
 
 func splitTableName(table string) (string, string) {
-- 
2.43.0


From 07e658acd06c229d2a74d01cf7a3bb56afc41c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:05 +0000
Subject: [PATCH 46/85] fix: mssql: quote the name of a CHECK constraint
 dropped with its column

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 30df38a..96776e7 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -229,7 +229,7 @@ func (g *Generator) generateDDLsForAbsentColumn(currentTable *Table, columnName
 	if g.mode == GeneratorModeMssql {
 		for _, column := range currentTable.columns {
 			if column.name == columnName && column.check != nil && column.check.constraintName != "" {
-				ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), column.check.constraintName)
+				ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeConstraintName(column.check.constraintName))
 				ddls = append(ddls, ddl)
 			}
 			if column.name == columnName && column.defaultDef != nil && column.defaultDef.constraintName != "" {
-- 
2.43.0


From 5780e39c7365743beeb90f630a557682b7e1597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:05 +0000
Subject: [PATCH 47/85] fix: Preview: a keyword ends where a name does, not
 only at a blank

---
 sqlparser/analyzer.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sqlparser/analyzer.go b/sqlparser/analyzer.go
index 9867bda..a09ca41 100644
--- a/sqlparser/analyzer.go
+++ b/sqlparser/analyzer.go
@@ -53,11 +53,10 @@ const (
 func Preview(sql string) int {
 	trimmed := StripLeadingComments(sql)
 
-	firstWord := trimmed
-	if end := strings.IndexFunc(trimmed, unicode.IsSpace); end != -1 {
-		firstWord = trimmed[:end]
+	firstWord := strings.TrimLeftFunc(trimmed, func(r rune) bool { return r == '(' || unicode.IsSpace(r) })
+	if end := strings.IndexFunc(firstWord, func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsDigit(r) && r != '_' }); end != -1 {
+		firstWord = firstWord[:end]
 	}
-	firstWord = strings.TrimLeftFunc(firstWord, func(r rune) bool { return !unicode.IsLetter(r) })
 	// Comparison is done in order of priority.
 	loweredFirstWord := strings.ToLower(firstWord)
 	switch loweredFirstWord {
-- 
2.43.0


From 56c37ba52b3a96cde988019fbb1ec9a8e230f786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:05 +0000
Subject: [PATCH 48/85] fix: AddWhere, AddHaving: parenthesize an OR condition
 already there

---
 sqlparser/ast.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index d8ee7db..2ad94ff 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -371,8 +371,12 @@ func (node *Select) AddWhere(expr Expr) {
 		}
 		return
 	}
+	left := node.Where.Expr
+	if _, ok := left.(*OrExpr); ok {
+		left = &ParenExpr{Expr: left}
+	}
 	node.Where.Expr = &AndExpr{
-		Left:  node.Where.Expr,
+		Left:  left,
 		Right: expr,
 	}
 	return
@@ -394,8 +398,12 @@ func (node *Select) AddHaving(expr Expr) {
 		}
 		return
 	}
+	left := node.Having.Expr
+	if _, ok := left.(*OrExpr); ok {
+		left = &ParenExpr{Expr: left}
+	}
 	node.Having.Expr = &AndExpr{
-		Left:  node.Having.Expr,
+		Left:  left,
 		Right: expr,
 	}
 	return
-- 
2.43.0


From 0cc1db8b344cdcd5e6d1473ac8e72716462fe1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:45 +0000
Subject: [PATCH 49/85] fix: postgres: compare the rest of a policy after
 expressions that differ in parentheses

---
 schema/generator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 96776e7..464d30a 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1580,11 +1580,11 @@ func areSamePolicies(policyA, policyB Policy) bool {
 	if strings.ToLower(policyA.permissive) != strings.ToLower(policyB.permissive) {
 		return false
 	}
-	if lowerExceptLiterals(policyA.using) != lowerExceptLiterals(policyB.using) {
-		return fmt.Sprintf("(%s)", policyA.using) == policyB.using
+	if lowerExceptLiterals(policyA.using) != lowerExceptLiterals(policyB.using) && fmt.Sprintf("(%s)", policyA.using) != policyB.using {
+		return false
 	}
-	if lowerExceptLiterals(policyA.withCheck) != lowerExceptLiterals(policyB.withCheck) {
-		return fmt.Sprintf("(%s)", policyA.withCheck) == policyB.withCheck
+	if lowerExceptLiterals(policyA.withCheck) != lowerExceptLiterals(policyB.withCheck) && fmt.Sprintf("(%s)", policyA.withCheck) != policyB.withCheck {
+		return false
 	}
 	if len(policyA.roles) != len(policyB.roles) {
 		return false
-- 
2.43.0


From 9f5e876730392024ec85b9848364ae6141b418a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:45 +0000
Subject: [PATCH 50/85] fix: postgres: compare the roles of policies regardless
 of their letter case and order

---
 schema/generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 464d30a..c506f7c 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1590,10 +1590,10 @@ func areSamePolicies(policyA, policyB Policy) bool {
 		return false
 	}
 	sort.Slice(policyA.roles, func(i, j int) bool {
-		return policyA.roles[i] <= policyA.roles[j]
+		return strings.ToLower(policyA.roles[i]) < strings.ToLower(policyA.roles[j])
 	})
 	sort.Slice(policyB.roles, func(i, j int) bool {
-		return policyB.roles[i] <= policyB.roles[j]
+		return strings.ToLower(policyB.roles[i]) < strings.ToLower(policyB.roles[j])
 	})
 	for i := range policyA.roles {
 		if strings.ToLower(policyA.roles[i]) != strings.ToLower(policyB.roles[i]) {
-- 
2.43.0


From 6a028b4c8f4d8b21d81e37683d26e066920f6b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:39 +0000
Subject: [PATCH 51/85] fix: mysql: BINARY of a column means the _bin collation
 of its own or the table's character set

---
 schema/generator.go | 13 +++++++++++--
 schema/parser.go    | 29 +++++++++++++++++++----------
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index c506f7c..d5b1071 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -858,7 +858,9 @@ func (g *Generator) generateColumnDefinition(column Column, enableUnique bool) (
 	if column.charset != "" {
 		definition += fmt.Sprintf("CHARACTER SET %s ", column.charset)
 	}
-	if column.collate != "" {
+	if column.collate == "binary" {
+		definition += "BINARY "
+	} else if column.collate != "" {
 		definition += fmt.Sprintf("COLLATE %s ", column.collate)
 	}
 
@@ -1356,10 +1358,17 @@ func (g *Generator) haveSameColumnDefinition(current Column, desired Column) boo
 		(current.timezone == desired.timezone) &&
 		(current.check == desired.check) &&
 		(desired.charset == "" || current.charset == desired.charset) && // detect change column only when set explicitly. TODO: can we calculate implicit charset?
-		(desired.collate == "" || current.collate == desired.collate) && // detect change column only when set explicitly. TODO: can we calculate implicit collate?
+		(desired.collate == "" || areSameCollations(current.collate, desired.collate)) && // detect change column only when set explicitly. TODO: can we calculate implicit collate?
 		reflect.DeepEqual(current.onUpdate, desired.onUpdate)
 }
 
+func areSameCollations(current string, desired string) bool {
+	if desired == "binary" { // the binary collation of whatever character set
+		return strings.HasSuffix(current, "_bin")
+	}
+	return current == desired
+}
+
 func (g *Generator) haveSameDataType(current Column, desired Column) bool {
 	return g.normalizeDataType(current.typeName) == g.normalizeDataType(desired.typeName) &&
 		reflect.DeepEqual(current.enumValues, desired.enumValues) &&
diff --git a/schema/parser.go b/schema/parser.go
index d8f881c..4ae0b08 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -109,7 +109,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 			length:        parseValue(parsedCol.Type.Length),
 			scale:         parseValue(parsedCol.Type.Scale),
 			charset:       parsedCol.Type.Charset,
-			collate:       normalizeCollate(parsedCol.Type.Collate, *stmt.TableSpec),
+			collate:       normalizeCollate(parsedCol.Type, *stmt.TableSpec),
 			timezone:      castBool(parsedCol.Type.Timezone),
 			keyOption:     ColumnKeyOption(parsedCol.Type.KeyOpt), // FIXME: tight coupling in enum order
 			onUpdate:      parseValue(parsedCol.Type.OnUpdate),
@@ -482,12 +482,18 @@ func parseDDLs(mode GeneratorMode, str string) ([]DDL, error) {
 }
 
 // Replace pseudo collation "binary" with "{charset}_bin"
-func normalizeCollate(collate string, table sqlparser.TableSpec) string {
-	if collate == "binary" {
-		return detectCharset(table) + "_bin"
-	} else {
-		return collate
+func normalizeCollate(columnType sqlparser.ColumnType, table sqlparser.TableSpec) string {
+	if columnType.Collate != "binary" {
+		return columnType.Collate
+	}
+	charset := columnType.Charset
+	if charset == "" {
+		charset = detectCharset(table)
 	}
+	if charset == "" {
+		return columnType.Collate // The character set is known to the database only
+	}
+	return charset + "_bin"
 }
 
 // Qualify Postgres schema
@@ -505,12 +511,15 @@ func normalizedTableName(mode GeneratorMode, tableName sqlparser.TableName) stri
 
 // TODO: parse charset in parser.y instead of "detecting" it
 func detectCharset(table sqlparser.TableSpec) string {
-	for _, option := range strings.Split(table.Options, " ") {
-		if strings.HasPrefix(option, "charset=") {
-			return strings.TrimLeft(option, "charset=")
+	options := strings.FieldsFunc(table.Options, func(r rune) bool {
+		return r == ' ' || r == '=' || r == ','
+	})
+	for i, option := range options {
+		// CHARSET or CHARACTER SET
+		if i+1 < len(options) && (option == "charset" || option == "set" && i > 0 && options[i-1] == "character") {
+			return options[i+1]
 		}
 	}
-	// TODO: consider returning err when charset is missing
 	return ""
 }
 
-- 
2.43.0


From 61d78e9f5cd87ec390aefc81cd601e07176cf097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:40 +0000
Subject: [PATCH 52/85] fix: mysql: compare character sets and collations
 regardless of their letter case

---
 schema/generator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index d5b1071..2cf09b0 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1357,16 +1357,16 @@ func (g *Generator) haveSameColumnDefinition(current Column, desired Column) boo
 		((current.notNull != nil && *current.notNull) == ((desired.notNull != nil && *desired.notNull) || desired.keyOption == ColumnKeyPrimary)) && // `PRIMARY KEY` implies `NOT NULL`
 		(current.timezone == desired.timezone) &&
 		(current.check == desired.check) &&
-		(desired.charset == "" || current.charset == desired.charset) && // detect change column only when set explicitly. TODO: can we calculate implicit charset?
+		(desired.charset == "" || strings.EqualFold(current.charset, desired.charset)) && // detect change column only when set explicitly. TODO: can we calculate implicit charset?
 		(desired.collate == "" || areSameCollations(current.collate, desired.collate)) && // detect change column only when set explicitly. TODO: can we calculate implicit collate?
 		reflect.DeepEqual(current.onUpdate, desired.onUpdate)
 }
 
 func areSameCollations(current string, desired string) bool {
 	if desired == "binary" { // the binary collation of whatever character set
-		return strings.HasSuffix(current, "_bin")
+		return strings.HasSuffix(strings.ToLower(current), "_bin")
 	}
-	return current == desired
+	return strings.EqualFold(current, desired)
 }
 
 func (g *Generator) haveSameDataType(current Column, desired Column) bool {
-- 
2.43.0


From d775c298aab2733356e5e32716a5f09cfa67abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:42 +0000
Subject: [PATCH 53/85] fix: mysql: reorder columns while others come or go

---
 schema/generator.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 2cf09b0..ec03d8d 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -281,8 +281,19 @@ func validateDesiredForeignKey(tableName string, foreignKey ForeignKey) error {
 func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired CreateTable) ([]string, error) {
 	ddls := []string{}
 
+	// Simulated order of the columns, without the ones to be dropped
+	columnOrder := []string{}
+	for _, column := range currentTable.columns {
+		if findColumnByName(desired.table.columns, column.name) != nil {
+			columnOrder = append(columnOrder, column.name)
+		}
+	}
+
 	// Examine each column
 	for i, desiredColumn := range desired.table.columns {
+		changeOrder := i < len(columnOrder) && columnOrder[i] != desiredColumn.name
+		columnOrder = moveString(columnOrder, desiredColumn.name, i)
+
 		currentColumn := findColumnByName(currentTable.columns, desiredColumn.name)
 		if currentColumn == nil || !currentColumn.autoIncrement {
 			// We may not be able to add AUTO_INCREMENT yet. It will be added after adding keys (primary or not) at the "Add new AUTO_INCREMENT" place.
@@ -316,10 +327,6 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 			// Change column data type or order as needed.
 			switch g.mode {
 			case GeneratorModeMysql:
-				currentPos := currentColumn.position
-				desiredPos := desiredColumn.position
-				changeOrder := currentPos > desiredPos && currentPos-desiredPos > len(currentTable.columns)-len(desired.table.columns)
-
 				// Change column type and orders, *except* AUTO_INCREMENT and UNIQUE KEY.
 				if !g.haveSameColumnDefinition(*currentColumn, desiredColumn) || !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) || changeOrder {
 					definition, err := g.generateColumnDefinition(desiredColumn, false)
@@ -1699,6 +1706,18 @@ func containsString(strs []string, str string) bool {
 	return false
 }
 
+// Put a string at the position, from wherever it is behind it.
+func moveString(strs []string, str string, position int) []string {
+	ret := append([]string{}, strs[:position]...)
+	ret = append(ret, str)
+	for _, s := range strs[position:] {
+		if s != str {
+			ret = append(ret, s)
+		}
+	}
+	return ret
+}
+
 func removeTableByName(tables []*Table, name string) []*Table {
 	removed := false
 	ret := []*Table{}
-- 
2.43.0


From f96e6d1e1ecad522821715bf136208324687359e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:44 +0000
Subject: [PATCH 54/85] fix: mysql: make a column nullable once the primary key
 it was in is dropped

---
 schema/generator.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index ec03d8d..8a50085 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -327,9 +327,19 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 			// Change column data type or order as needed.
 			switch g.mode {
 			case GeneratorModeMysql:
+				column := desiredColumn
+				if g.leavesPrimaryKey(column, currentTable, desired.table) {
+					// The column stays NOT NULL until the key is dropped.
+					notNull := true
+					column.notNull = &notNull
+					if column.defaultDef != nil && isNullValue(column.defaultDef.value) {
+						column.defaultDef = nil
+					}
+				}
+
 				// Change column type and orders, *except* AUTO_INCREMENT and UNIQUE KEY.
-				if !g.haveSameColumnDefinition(*currentColumn, desiredColumn) || !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) || changeOrder {
-					definition, err := g.generateColumnDefinition(desiredColumn, false)
+				if !g.haveSameColumnDefinition(*currentColumn, column) || !areSameDefaultValue(currentColumn.defaultDef, column.defaultDef) || changeOrder {
+					definition, err := g.generateColumnDefinition(column, false)
 					if err != nil {
 						return ddls, err
 					}
@@ -503,12 +513,21 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 			switch g.mode {
 			case GeneratorModeMysql:
 				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP PRIMARY KEY", g.escapeTableName(desired.table.name)))
+				for _, column := range desired.table.columns { // The columns of the dropped key are still NOT NULL
+					if g.leavesPrimaryKey(column, currentTable, desired.table) {
+						column.autoIncrement = false
+						definition, err := g.generateColumnDefinition(column, false)
+						if err != nil {
+							return ddls, err
+						}
+						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s CHANGE COLUMN %s %s", g.escapeTableName(desired.table.name), g.escapeSQLName(column.name), definition))
+					}
+				}
 			case GeneratorModePostgres:
 				tableName := strings.SplitN(desired.table.name, ".", 2)[1] // without schema
 				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(tableName+"_pkey")))
 				for _, column := range desired.table.columns { // The columns of the dropped key are still NOT NULL
-					currentColumn := findColumnByName(currentTable.columns, column.name)
-					if currentColumn != nil && isPrimaryKey(*currentColumn, currentTable) && !isPrimaryKey(column, desired.table) && !g.notNull(column) {
+					if g.leavesPrimaryKey(column, currentTable, desired.table) {
 						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP NOT NULL", g.escapeTableName(desired.table.name), g.escapeSQLName(column.name)))
 					}
 				}
@@ -1188,6 +1207,12 @@ func isPrimaryKey(column Column, table Table) bool {
 	return false
 }
 
+// Whether a column of the current primary key becomes a nullable one.
+func (g *Generator) leavesPrimaryKey(desiredColumn Column, currentTable, desiredTable Table) bool {
+	currentColumn := findColumnByName(currentTable.columns, desiredColumn.name)
+	return currentColumn != nil && isPrimaryKey(*currentColumn, currentTable) && !isPrimaryKey(desiredColumn, desiredTable) && !g.notNull(desiredColumn)
+}
+
 // Destructively modify table1 to have table2 columns/indexes
 func mergeTable(table1 *Table, table2 Table) {
 	for _, column := range table2.columns {
-- 
2.43.0


From 177a9625d127d2c78b74b1e1a07e33cf33911ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 55/85] fix: mysql: keep a changed type while AUTO_INCREMENT is
 removed

---
 schema/generator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 8a50085..1ef0aba 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -289,6 +289,8 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 		}
 	}
 
+	changedColumns := []string{}
+
 	// Examine each column
 	for i, desiredColumn := range desired.table.columns {
 		changeOrder := i < len(columnOrder) && columnOrder[i] != desiredColumn.name
@@ -353,6 +355,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 						ddl += after
 					}
 					ddls = append(ddls, ddl)
+					changedColumns = append(changedColumns, currentColumn.name)
 				}
 
 				// Add UNIQUE KEY. TODO: Probably it should be just normalized to an index after the parser phase.
@@ -494,7 +497,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 	if g.mode == GeneratorModeMysql {
 		for _, currentColumn := range currentTable.columns {
 			desiredColumn := findColumnByName(desired.table.columns, currentColumn.name)
-			if currentColumn.autoIncrement && (desiredColumn == nil || !desiredColumn.autoIncrement) {
+			if currentColumn.autoIncrement && !containsString(changedColumns, currentColumn.name) && (desiredColumn == nil || !desiredColumn.autoIncrement) {
 				currentColumn.autoIncrement = false
 				definition, err := g.generateColumnDefinition(currentColumn, false)
 				if err != nil {
-- 
2.43.0


From 5196cc9b14b2c64d2482f574c6d5159453026e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:47 +0000
Subject: [PATCH 56/85] fix: mysql: remove AUTO_INCREMENT while the keys of the
 column are replaced

---
 schema/generator.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 1ef0aba..aa1c9b7 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -297,7 +297,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 		columnOrder = moveString(columnOrder, desiredColumn.name, i)
 
 		currentColumn := findColumnByName(currentTable.columns, desiredColumn.name)
-		if currentColumn == nil || !currentColumn.autoIncrement {
+		if currentColumn == nil || !currentColumn.autoIncrement || losesKeys(desiredColumn.name, currentTable, desired.table) {
 			// We may not be able to add AUTO_INCREMENT yet. It will be added after adding keys (primary or not) at the "Add new AUTO_INCREMENT" place.
 			desiredColumn.autoIncrement = false
 		}
@@ -497,7 +497,8 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 	if g.mode == GeneratorModeMysql {
 		for _, currentColumn := range currentTable.columns {
 			desiredColumn := findColumnByName(desired.table.columns, currentColumn.name)
-			if currentColumn.autoIncrement && !containsString(changedColumns, currentColumn.name) && (desiredColumn == nil || !desiredColumn.autoIncrement) {
+			if currentColumn.autoIncrement && !containsString(changedColumns, currentColumn.name) &&
+				(desiredColumn == nil || !desiredColumn.autoIncrement || losesKeys(currentColumn.name, currentTable, desired.table)) {
 				currentColumn.autoIncrement = false
 				definition, err := g.generateColumnDefinition(currentColumn, false)
 				if err != nil {
@@ -568,7 +569,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 	if g.mode == GeneratorModeMysql {
 		for _, desiredColumn := range desired.table.columns {
 			currentColumn := findColumnByName(currentTable.columns, desiredColumn.name)
-			if desiredColumn.autoIncrement && (currentColumn == nil || !currentColumn.autoIncrement) {
+			if desiredColumn.autoIncrement && (currentColumn == nil || !currentColumn.autoIncrement || losesKeys(desiredColumn.name, currentTable, desired.table)) {
 				definition, err := g.generateColumnDefinition(desiredColumn, false)
 				if err != nil {
 					return ddls, err
@@ -1216,6 +1217,27 @@ func (g *Generator) leavesPrimaryKey(desiredColumn Column, currentTable, desired
 	return currentColumn != nil && isPrimaryKey(*currentColumn, currentTable) && !isPrimaryKey(desiredColumn, desiredTable) && !g.notNull(desiredColumn)
 }
 
+// Whether all the current keys beginning with a column are dropped, at least to be added again in another form.
+func losesKeys(columnName string, currentTable, desiredTable Table) bool {
+	loses := false
+	if primaryKey := currentTable.PrimaryKey(); primaryKey != nil && primaryKey.columns[0].column == columnName {
+		if areSamePrimaryKeys(primaryKey, desiredTable.PrimaryKey()) {
+			return false
+		}
+		loses = true
+	}
+	for _, index := range currentTable.indexes {
+		if index.primary || index.columns[0].column != columnName {
+			continue
+		}
+		if desiredIndex := findIndexByName(desiredTable.indexes, index.name); desiredIndex == nil || areSameIndexes(index, *desiredIndex) {
+			return false // kept, or dropped after the desired keys have been added
+		}
+		loses = true
+	}
+	return loses
+}
+
 // Destructively modify table1 to have table2 columns/indexes
 func mergeTable(table1 *Table, table2 Table) {
 	for _, column := range table2.columns {
-- 
2.43.0


From 50eccd975c87b8f01eee59c3f37ea1db9c586d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:49 +0000
Subject: [PATCH 57/85] fix: replace a primary key by an inline one of another
 column

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index aa1c9b7..2308c21 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -805,7 +805,7 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 	ddls := []string{}
 
 	if currentIndex.primary {
-		if g.mode == GeneratorModeMssql && desiredTable.PrimaryKey() != nil {
+		if g.mode != GeneratorModeSQLite3 && desiredTable.PrimaryKey() != nil {
 			return ddls, nil // It has been replaced as needed.
 		}
 
-- 
2.43.0


From 01636adb54032bbeb7c1478f21251a85e7da4bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 58/85] fix: mysql: PRIMARY KEY and AUTO_INCREMENT imply NOT
 NULL

---
 schema/generator.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 2308c21..f3b62b8 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -281,6 +281,11 @@ func validateDesiredForeignKey(tableName string, foreignKey ForeignKey) error {
 func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired CreateTable) ([]string, error) {
 	ddls := []string{}
 
+	if g.mode == GeneratorModeMysql {
+		currentTable.columns = implyNotNull(currentTable)
+		desired.table.columns = implyNotNull(desired.table)
+	}
+
 	// Simulated order of the columns, without the ones to be dropped
 	columnOrder := []string{}
 	for _, column := range currentTable.columns {
@@ -1211,6 +1216,19 @@ func isPrimaryKey(column Column, table Table) bool {
 	return false
 }
 
+// `PRIMARY KEY` and `AUTO_INCREMENT` imply `NOT NULL` in MySQL
+func implyNotNull(table Table) []Column {
+	columns := []Column{}
+	for _, column := range table.columns {
+		if column.autoIncrement || isPrimaryKey(column, table) {
+			notNull := true
+			column.notNull = &notNull
+		}
+		columns = append(columns, column)
+	}
+	return columns
+}
+
 // Whether a column of the current primary key becomes a nullable one.
 func (g *Generator) leavesPrimaryKey(desiredColumn Column, currentTable, desiredTable Table) bool {
 	currentColumn := findColumnByName(currentTable.columns, desiredColumn.name)
-- 
2.43.0


From e44342fc8cd812342647538deb13b04d2e186905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:53 +0000
Subject: [PATCH 59/85] fix: mysql: detect fractional seconds that appear or
 vanish

---
 schema/generator.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index f3b62b8..eb5fe00 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1447,11 +1447,24 @@ func areSameCollations(current string, desired string) bool {
 func (g *Generator) haveSameDataType(current Column, desired Column) bool {
 	return g.normalizeDataType(current.typeName) == g.normalizeDataType(desired.typeName) &&
 		reflect.DeepEqual(current.enumValues, desired.enumValues) &&
-		(current.length == nil || desired.length == nil || current.length.intVal == desired.length.intVal) && // detect change column only when both are set explicitly. TODO: maybe `current.length == nil` case needs another care
+		g.haveSameLength(current, desired) &&
 		(current.scale == nil || desired.scale == nil || current.scale.intVal == desired.scale.intVal) &&
 		current.array == desired.array
 }
 
+func (g *Generator) haveSameLength(current Column, desired Column) bool {
+	if current.length != nil && desired.length != nil {
+		return current.length.intVal == desired.length.intVal
+	}
+	if g.mode == GeneratorModeMysql {
+		switch desired.typeName {
+		case "datetime", "timestamp", "time": // no fractional seconds
+			return (current.length == nil || current.length.intVal == 0) && (desired.length == nil || desired.length.intVal == 0)
+		}
+	}
+	return true // detect change column only when both are set explicitly. TODO: maybe `current.length == nil` case needs another care
+}
+
 func areSameCheckDefinition(checkA *CheckDefinition, checkB *CheckDefinition) bool {
 	if checkA == nil && checkB == nil {
 		return true
-- 
2.43.0


From 9cafc7a086e19d4ae64d8d31913358088b742148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 60/85] fix: mysql: compare prefix lengths and options of
 indexes

---
 schema/generator.go | 34 +++++++++++++++++++++-------------
 schema/parser.go    | 14 ++++++++++++++
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index eb5fe00..4655a41 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -302,7 +302,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 		columnOrder = moveString(columnOrder, desiredColumn.name, i)
 
 		currentColumn := findColumnByName(currentTable.columns, desiredColumn.name)
-		if currentColumn == nil || !currentColumn.autoIncrement || losesKeys(desiredColumn.name, currentTable, desired.table) {
+		if currentColumn == nil || !currentColumn.autoIncrement || g.losesKeys(desiredColumn.name, currentTable, desired.table) {
 			// We may not be able to add AUTO_INCREMENT yet. It will be added after adding keys (primary or not) at the "Add new AUTO_INCREMENT" place.
 			desiredColumn.autoIncrement = false
 		}
@@ -503,7 +503,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 		for _, currentColumn := range currentTable.columns {
 			desiredColumn := findColumnByName(desired.table.columns, currentColumn.name)
 			if currentColumn.autoIncrement && !containsString(changedColumns, currentColumn.name) &&
-				(desiredColumn == nil || !desiredColumn.autoIncrement || losesKeys(currentColumn.name, currentTable, desired.table)) {
+				(desiredColumn == nil || !desiredColumn.autoIncrement || g.losesKeys(currentColumn.name, currentTable, desired.table)) {
 				currentColumn.autoIncrement = false
 				definition, err := g.generateColumnDefinition(currentColumn, false)
 				if err != nil {
@@ -517,7 +517,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 	// Examine primary key
 	currentPrimaryKey := currentTable.PrimaryKey()
 	desiredPrimaryKey := desired.table.PrimaryKey()
-	if !areSamePrimaryKeys(currentPrimaryKey, desiredPrimaryKey) {
+	if !g.areSamePrimaryKeys(currentPrimaryKey, desiredPrimaryKey) {
 		if currentPrimaryKey != nil {
 			switch g.mode {
 			case GeneratorModeMysql:
@@ -560,7 +560,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 
 		if currentIndex := findIndexByName(currentTable.indexes, desiredIndex.name); currentIndex != nil {
 			// Drop and add index as needed.
-			if !areSameIndexes(*currentIndex, desiredIndex) {
+			if !g.areSameIndexes(*currentIndex, desiredIndex) {
 				ddls = append(ddls, g.generateDropIndex(desired.table.name, desiredIndex.name))
 				ddls = append(ddls, g.generateAddIndex(desired.table.name, desiredIndex))
 			}
@@ -574,7 +574,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 	if g.mode == GeneratorModeMysql {
 		for _, desiredColumn := range desired.table.columns {
 			currentColumn := findColumnByName(currentTable.columns, desiredColumn.name)
-			if desiredColumn.autoIncrement && (currentColumn == nil || !currentColumn.autoIncrement || losesKeys(desiredColumn.name, currentTable, desired.table)) {
+			if desiredColumn.autoIncrement && (currentColumn == nil || !currentColumn.autoIncrement || g.losesKeys(desiredColumn.name, currentTable, desired.table)) {
 				definition, err := g.generateColumnDefinition(desiredColumn, false)
 				if err != nil {
 					return ddls, err
@@ -624,6 +624,9 @@ func (g *Generator) generateDDLsForCreateIndex(tableName string, desiredIndex In
 		return nil, fmt.Errorf("%s is performed for inexistent table '%s': '%s'", action, tableName, statement)
 	}
 
+	if desiredTable := findTableByName(g.desiredTables, tableName); desiredTable != nil {
+		normalizeIndexLengths(&desiredIndex, desiredTable.columns)
+	}
 	currentIndex := findIndexByName(currentTable.indexes, desiredIndex.name)
 	if currentIndex == nil {
 		// Index not found, add index.
@@ -631,7 +634,7 @@ func (g *Generator) generateDDLsForCreateIndex(tableName string, desiredIndex In
 		currentTable.indexes = append(currentTable.indexes, desiredIndex)
 	} else {
 		// Index found. If it's different, drop and add index.
-		if !areSameIndexes(*currentIndex, desiredIndex) {
+		if !g.areSameIndexes(*currentIndex, desiredIndex) {
 			ddls = append(ddls, g.generateDropIndex(currentTable.name, currentIndex.name))
 			ddls = append(ddls, statement)
 
@@ -1236,10 +1239,10 @@ func (g *Generator) leavesPrimaryKey(desiredColumn Column, currentTable, desired
 }
 
 // Whether all the current keys beginning with a column are dropped, at least to be added again in another form.
-func losesKeys(columnName string, currentTable, desiredTable Table) bool {
+func (g *Generator) losesKeys(columnName string, currentTable, desiredTable Table) bool {
 	loses := false
 	if primaryKey := currentTable.PrimaryKey(); primaryKey != nil && primaryKey.columns[0].column == columnName {
-		if areSamePrimaryKeys(primaryKey, desiredTable.PrimaryKey()) {
+		if g.areSamePrimaryKeys(primaryKey, desiredTable.PrimaryKey()) {
 			return false
 		}
 		loses = true
@@ -1248,7 +1251,7 @@ func losesKeys(columnName string, currentTable, desiredTable Table) bool {
 		if index.primary || index.columns[0].column != columnName {
 			continue
 		}
-		if desiredIndex := findIndexByName(desiredTable.indexes, index.name); desiredIndex == nil || areSameIndexes(index, *desiredIndex) {
+		if desiredIndex := findIndexByName(desiredTable.indexes, index.name); desiredIndex == nil || g.areSameIndexes(index, *desiredIndex) {
 			return false // kept, or dropped after the desired keys have been added
 		}
 		loses = true
@@ -1593,15 +1596,15 @@ func (g *Generator) normalizeDataType(dataType string) string {
 	return dataType
 }
 
-func areSamePrimaryKeys(primaryKeyA *Index, primaryKeyB *Index) bool {
+func (g *Generator) areSamePrimaryKeys(primaryKeyA *Index, primaryKeyB *Index) bool {
 	if primaryKeyA != nil && primaryKeyB != nil {
-		return areSameIndexes(*primaryKeyA, *primaryKeyB)
+		return g.areSameIndexes(*primaryKeyA, *primaryKeyB)
 	} else {
 		return primaryKeyA == nil && primaryKeyB == nil
 	}
 }
 
-func areSameIndexes(indexA Index, indexB Index) bool {
+func (g *Generator) areSameIndexes(indexA Index, indexB Index) bool {
 	if indexA.unique != indexB.unique {
 		return false
 	}
@@ -1618,7 +1621,9 @@ func areSameIndexes(indexA Index, indexB Index) bool {
 		if indexB.columns[i].direction == "" {
 			indexB.columns[i].direction = AscScr
 		}
-		// TODO: check length?
+		if g.mode == GeneratorModeMysql && !reflect.DeepEqual(indexAColumn.length, indexB.columns[i].length) {
+			return false
+		}
 		if indexAColumn.column != indexB.columns[i].column || indexAColumn.direction != indexB.columns[i].direction {
 			return false
 		}
@@ -1636,6 +1641,9 @@ func areSameIndexes(indexA Index, indexB Index) bool {
 		}
 	}
 
+	if g.mode == GeneratorModeMysql && len(indexA.options) != len(indexB.options) { // only options that were set explicitly are exported
+		return false
+	}
 	for _, optionB := range indexB.options {
 		if optionA := findIndexOptionByName(indexA.options, optionB.optionName); optionA != nil {
 			if !areSameValue(optionA.value, optionB.value) {
diff --git a/schema/parser.go b/schema/parser.go
index 4ae0b08..865b30a 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -174,6 +174,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 			options:   indexOptions,
 			partition: indexPartition,
 		}
+		normalizeIndexLengths(&index, columns)
 		indexes = append(indexes, index)
 	}
 
@@ -277,6 +278,19 @@ func parseIndex(mode GeneratorMode, stmt *sqlparser.DDL) (Index, error) {
 	}, nil
 }
 
+// A key on a prefix as long as the column is a key on the column.
+func normalizeIndexLengths(index *Index, columns []Column) {
+	indexColumns := []IndexColumn{}
+	for _, indexColumn := range index.columns {
+		column := findColumnByName(columns, indexColumn.column)
+		if column != nil && column.length != nil && indexColumn.length != nil && *indexColumn.length == column.length.intVal {
+			indexColumn.length = nil
+		}
+		indexColumns = append(indexColumns, indexColumn)
+	}
+	index.columns = indexColumns
+}
+
 func parserMode(mode GeneratorMode) sqlparser.ParserMode {
 	switch mode {
 	case GeneratorModeMysql:
-- 
2.43.0


From 0bfcf96fe78095f283fd7f1fb9e3b30d890bc5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:57 +0000
Subject: [PATCH 61/85] fix: mysql: compare whether indexes are FULLTEXT or
 SPATIAL

---
 schema/generator.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 4655a41..776df20 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1611,6 +1611,9 @@ func (g *Generator) areSameIndexes(indexA Index, indexB Index) bool {
 	if indexA.primary != indexB.primary {
 		return false
 	}
+	if fulltextOrSpatial(indexA) != fulltextOrSpatial(indexB) {
+		return false
+	}
 	for len(indexA.columns) != len(indexB.columns) {
 		return false
 	}
@@ -1657,6 +1660,17 @@ func (g *Generator) areSameIndexes(indexA Index, indexB Index) bool {
 	return true
 }
 
+// Get FULLTEXT or SPATIAL if an index is such one.
+func fulltextOrSpatial(index Index) string {
+	indexType := strings.ToUpper(index.indexType)
+	for _, prefix := range []string{"FULLTEXT", "SPATIAL"} {
+		if strings.HasPrefix(indexType, prefix) {
+			return prefix
+		}
+	}
+	return ""
+}
+
 func (g *Generator) areSameForeignKeys(foreignKeyA ForeignKey, foreignKeyB ForeignKey) bool {
 	if g.normalizeOnUpdate(foreignKeyA.onUpdate) != g.normalizeOnUpdate(foreignKeyB.onUpdate) {
 		return false
-- 
2.43.0


From cd4c2810b68c26c6cfbdc319099a804dcd4f4144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:58 +0000
Subject: [PATCH 62/85] fix: mysql: compare the parser and the method of an
 index regardless of letter case

---
 schema/generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 776df20..7087f0d 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1649,7 +1649,11 @@ func (g *Generator) areSameIndexes(indexA Index, indexB Index) bool {
 	}
 	for _, optionB := range indexB.options {
 		if optionA := findIndexOptionByName(indexA.options, optionB.optionName); optionA != nil {
-			if !areSameValue(optionA.value, optionB.value) {
+			if optionB.optionName == "parser" && optionA.value != nil && optionB.value != nil { // the name of a plugin
+				if !strings.EqualFold(string(optionA.value.raw), string(optionB.value.raw)) {
+					return false
+				}
+			} else if !areSameValue(optionA.value, optionB.value) || !strings.EqualFold(optionA.using, optionB.using) {
 				return false
 			}
 		} else {
-- 
2.43.0


From b0c5b39563073bb75922590c8540259e664204c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:16 +0000
Subject: [PATCH 63/85] fix: keep the schema of views, triggers, checks and
 referenced tables

---
 adapter/mssql/mssql.go | 11 +++++--
 schema/generator.go    | 72 ++++++++++++++++++++++++++++--------------
 schema/parser.go       | 16 ++++++----
 sqlparser/ast.go       |  2 +-
 sqlparser/parser.go    |  2 +-
 sqlparser/parser.y     |  2 +-
 6 files changed, 69 insertions(+), 36 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 5476bdb..fbe545d 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -369,6 +369,7 @@ func (d *MssqlDatabase) getForeignDefs(table string) ([]string, error) {
 	query := fmt.Sprintf(`SELECT
 	f.name,
 	COL_NAME(f.parent_object_id, fc.parent_column_id),
+	OBJECT_SCHEMA_NAME(f.referenced_object_id),
 	OBJECT_NAME(f.referenced_object_id)_id,
 	COL_NAME(f.referenced_object_id, fc.referenced_column_id),
 	f.update_referential_action_desc,
@@ -385,15 +386,19 @@ WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 
 	defs := make([]string, 0)
 	for rows.Next() {
-		var constraintName, columnName, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule string
+		var constraintName, columnName, foreignSchema, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule string
 		var notForReplication bool
-		err = rows.Scan(&constraintName, &columnName, &foreignTableName, &foreignColumnName, &foreignUpdateRule, &foreignDeleteRule, &notForReplication)
+		err = rows.Scan(&constraintName, &columnName, &foreignSchema, &foreignTableName, &foreignColumnName, &foreignUpdateRule, &foreignDeleteRule, &notForReplication)
 		if err != nil {
 			return nil, err
 		}
 		foreignUpdateRule = strings.Replace(foreignUpdateRule, "_", " ", -1)
 		foreignDeleteRule = strings.Replace(foreignDeleteRule, "_", " ", -1)
-		def := fmt.Sprintf("CONSTRAINT [%s] FOREIGN KEY ([%s]) REFERENCES [%s] ([%s]) ON UPDATE %s ON DELETE %s", constraintName, columnName, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule)
+		reference := fmt.Sprintf("[%s]", foreignTableName)
+		if foreignSchema != "dbo" {
+			reference = fmt.Sprintf("[%s].%s", foreignSchema, reference)
+		}
+		def := fmt.Sprintf("CONSTRAINT [%s] FOREIGN KEY ([%s]) REFERENCES %s ([%s]) ON UPDATE %s ON DELETE %s", constraintName, columnName, reference, foreignColumnName, foreignUpdateRule, foreignDeleteRule)
 		if notForReplication {
 			def += " NOT FOR REPLICATION"
 		}
diff --git a/schema/generator.go b/schema/generator.go
index 7087f0d..781f7b7 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -424,7 +424,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				}
 
 				if !areSameCheckDefinition(currentColumn.check, desiredColumn.check) || currentColumn.checkNoInherit != desiredColumn.checkNoInherit {
-					constraintName := fmt.Sprintf("%s_%s_check", strings.Replace(desired.table.name, "public.", "", 1), desiredColumn.name)
+					constraintName := fmt.Sprintf("%s_%s_check", g.tableNameWithoutSchema(desired.table.name), desiredColumn.name)
 					if currentColumn.check != nil {
 						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeConstraintName(constraintName))
 						ddls = append(ddls, ddl)
@@ -441,7 +441,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				// TODO: support adding a column's `references`
 			case GeneratorModeMssql:
 				if !areSameCheckDefinition(currentColumn.check, desiredColumn.check) || currentColumn.checkNoInherit != desiredColumn.checkNoInherit {
-					constraintName := fmt.Sprintf("%s_%s_check", strings.Replace(desired.table.name, "dbo.", "", 1), desiredColumn.name)
+					constraintName := fmt.Sprintf("%s_%s_check", g.tableNameWithoutSchema(desired.table.name), desiredColumn.name)
 					if currentColumn.check != nil {
 						currentConstraintName := currentColumn.check.constraintName
 						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeConstraintName(currentConstraintName))
@@ -533,8 +533,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					}
 				}
 			case GeneratorModePostgres:
-				tableName := strings.SplitN(desired.table.name, ".", 2)[1] // without schema
-				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(tableName+"_pkey")))
+				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(g.tableNameWithoutSchema(desired.table.name)+"_pkey")))
 				for _, column := range desired.table.columns { // The columns of the dropped key are still NOT NULL
 					if g.leavesPrimaryKey(column, currentTable, desired.table) {
 						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP NOT NULL", g.escapeTableName(desired.table.name), g.escapeSQLName(column.name)))
@@ -792,7 +791,7 @@ func (g *Generator) generateDDLsForAbsentForeignKey(currentForeignKey ForeignKey
 	case GeneratorModePostgres, GeneratorModeMssql:
 		var referencesColumn *Column
 		for _, column := range desiredTable.columns {
-			if column.references == currentForeignKey.referenceName {
+			if column.references != "" && column.references == g.tableNameWithoutSchema(currentForeignKey.referenceName) && g.isInDefaultSchema(currentForeignKey.referenceName) {
 				referencesColumn = &column
 				break
 			}
@@ -1107,7 +1106,7 @@ func (g *Generator) generateForeignKeyDefinition(foreignKey ForeignKey) string {
 
 	definition += fmt.Sprintf(
 		"(%s) REFERENCES %s (%s) ",
-		strings.Join(indexColumns, ","), g.escapeSQLName(foreignKey.referenceName),
+		strings.Join(indexColumns, ","), g.escapeReferenceName(foreignKey.referenceName),
 		strings.Join(referenceColumns, ","),
 	)
 
@@ -1130,6 +1129,10 @@ func (g *Generator) generateDropIndex(tableName string, indexName string) string
 	case GeneratorModeMysql:
 		return fmt.Sprintf("ALTER TABLE %s DROP INDEX %s", g.escapeTableName(tableName), g.escapeSQLName(indexName))
 	case GeneratorModePostgres:
+		if !g.isInDefaultSchema(tableName) { // An index is in the schema of its table
+			schemaName, _ := g.splitTableName(tableName)
+			return fmt.Sprintf("DROP INDEX %s.%s", g.escapeSQLName(schemaName), g.escapeSQLName(indexName))
+		}
 		return fmt.Sprintf("DROP INDEX %s", g.escapeSQLName(indexName))
 	case GeneratorModeMssql:
 		return fmt.Sprintf("DROP INDEX %s ON %s", g.escapeSQLName(indexName), g.escapeTableName(tableName))
@@ -1138,26 +1141,49 @@ func (g *Generator) generateDropIndex(tableName string, indexName string) string
 	}
 }
 
-func (g *Generator) escapeTableName(name string) string {
+// Split the name of a table into its schema, which is empty unless the database has ones, and the rest.
+func (g *Generator) splitTableName(name string) (string, string) {
+	schemaName := ""
 	switch g.mode {
-	case GeneratorModePostgres, GeneratorModeMssql:
-		schemaTable := strings.SplitN(name, ".", 2)
-		var schemaName, tableName string
-		if len(schemaTable) == 1 {
-			switch g.mode {
-			case GeneratorModePostgres:
-				schemaName, tableName = "public", schemaTable[0]
-			case GeneratorModeMssql:
-				schemaName, tableName = "dbo", schemaTable[0]
-			}
-		} else {
-			schemaName, tableName = schemaTable[0], schemaTable[1]
-		}
-
-		return g.escapeSQLName(schemaName) + "." + g.escapeSQLName(tableName)
+	case GeneratorModePostgres:
+		schemaName = "public"
+	case GeneratorModeMssql:
+		schemaName = "dbo"
 	default:
-		return g.escapeSQLName(name)
+		return schemaName, name
+	}
+	if schemaTable := strings.SplitN(name, ".", 2); len(schemaTable) == 2 {
+		return schemaTable[0], schemaTable[1]
+	}
+	return schemaName, name
+}
+
+func (g *Generator) tableNameWithoutSchema(name string) string {
+	_, tableName := g.splitTableName(name)
+	return tableName
+}
+
+// Whether the table is found without telling its schema
+func (g *Generator) isInDefaultSchema(name string) bool {
+	schemaName, tableName := g.splitTableName(name)
+	defaultSchema, _ := g.splitTableName(tableName)
+	return schemaName == defaultSchema
+}
+
+func (g *Generator) escapeTableName(name string) string {
+	schemaName, tableName := g.splitTableName(name)
+	if schemaName == "" {
+		return g.escapeSQLName(tableName)
+	}
+	return g.escapeSQLName(schemaName) + "." + g.escapeSQLName(tableName)
+}
+
+// The name of a referenced table, with its schema only when necessary
+func (g *Generator) escapeReferenceName(name string) string {
+	if g.isInDefaultSchema(name) {
+		return g.escapeSQLName(g.tableNameWithoutSchema(name))
 	}
+	return g.escapeTableName(name)
 }
 
 var plainNameRegex = regexp.MustCompile("^[a-z_][a-z0-9_]*$")
diff --git a/schema/parser.go b/schema/parser.go
index 865b30a..93fb05d 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -193,7 +193,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 			constraintName:    foreignKeyDef.ConstraintName.String(),
 			indexName:         foreignKeyDef.IndexName.String(),
 			indexColumns:      indexColumns,
-			referenceName:     foreignKeyDef.ReferenceName.String(),
+			referenceName:     normalizedTableName(mode, foreignKeyDef.ReferenceName),
 			referenceColumns:  referenceColumns,
 			onDelete:          foreignKeyDef.OnDelete.String(),
 			onUpdate:          foreignKeyDef.OnUpdate.String(),
@@ -412,7 +412,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 					constraintName:    stmt.ForeignKey.ConstraintName.String(),
 					indexName:         stmt.ForeignKey.IndexName.String(),
 					indexColumns:      indexColumns,
-					referenceName:     stmt.ForeignKey.ReferenceName.String(),
+					referenceName:     normalizedTableName(mode, stmt.ForeignKey.ReferenceName),
 					referenceColumns:  referenceColumns,
 					onDelete:          stmt.ForeignKey.OnDelete.String(),
 					onUpdate:          stmt.ForeignKey.OnUpdate.String(),
@@ -446,7 +446,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 		} else if stmt.Action == "create view" {
 			return &View{
 				statement:  ddl,
-				name:       stmt.View.Name.Name.String(),
+				name:       normalizedTableName(mode, stmt.View.Name),
 				definition: formatNode(mode, stmt.View.Definition),
 			}, nil
 		} else if stmt.Action == "create trigger" {
@@ -458,7 +458,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 			return &Trigger{
 				statement: ddl,
 				name:      stmt.Trigger.Name.String(),
-				tableName: stmt.Trigger.TableName.Name.String(),
+				tableName: normalizedTableName(mode, stmt.Trigger.TableName),
 				time:      stmt.Trigger.Time,
 				event:     stmt.Trigger.Event,
 				body:      body,
@@ -510,14 +510,16 @@ func normalizeCollate(columnType sqlparser.ColumnType, table sqlparser.TableSpec
 	return charset + "_bin"
 }
 
-// Qualify Postgres schema
+// Qualify the schema of Postgres and SQL Server
 func normalizedTableName(mode GeneratorMode, tableName sqlparser.TableName) string {
 	table := tableName.Name.String()
-	if mode == GeneratorModePostgres {
+	if mode == GeneratorModePostgres || mode == GeneratorModeMssql {
 		if len(tableName.Qualifier.String()) > 0 {
 			table = tableName.Qualifier.String() + "." + table
-		} else {
+		} else if mode == GeneratorModePostgres {
 			table = "public." + table
+		} else {
+			table = "dbo." + table
 		}
 	}
 	return table
diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 2ad94ff..2adae93 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -1436,7 +1436,7 @@ type ForeignKeyDefinition struct {
 	ConstraintName    ColIdent
 	IndexName         ColIdent
 	IndexColumns      []ColIdent
-	ReferenceName     ColIdent
+	ReferenceName     TableName
 	ReferenceColumns  []ColIdent
 	OnDelete          ColIdent
 	OnUpdate          ColIdent
diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 925e2c5..5acae61 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -5280,7 +5280,7 @@ yydefault:
 				ConstraintName:   yyDollar[2].colIdent,
 				IndexName:        yyDollar[5].colIdent,
 				IndexColumns:     yyDollar[7].colIdents,
-				ReferenceName:    NewColIdent(yyDollar[10].tableName.Name.String()),
+				ReferenceName:    yyDollar[10].tableName,
 				ReferenceColumns: yyDollar[12].colIdents,
 			}
 		}
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index d72715c..1fb0872 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1810,7 +1810,7 @@ foreign_key_without_options:
       ConstraintName: $2,
       IndexName: $5,
       IndexColumns: $7,
-      ReferenceName: NewColIdent($10.Name.String()),
+      ReferenceName: $10,
       ReferenceColumns: $12,
     }
   }
-- 
2.43.0


From e162a291349e351952dd875e7f98a02286193d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:18 +0000
Subject: [PATCH 64/85] fix: postgres: export the schema of the table of a
 policy

---
 adapter/postgres/postgres.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 06e8633..d0c6815 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -387,8 +387,8 @@ var (
 
 func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 	const query = "SELECT policyname, permissive, roles, cmd, qual, with_check FROM pg_policies WHERE schemaname = $1 AND tablename = $2;"
-	schema, table := splitTableName(table)
-	rows, err := d.db.Query(query, schema, table)
+	schema, tableName := splitTableName(table)
+	rows, err := d.db.Query(query, schema, tableName)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From a13101c625d62fa4bca2ad7bfb625e7f89f8d220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:20 +0000
Subject: [PATCH 65/85] fix: sqlite3: export tables whose names start with
 sqlite without an underscore

---
 adapter/sqlite3/sqlite3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/sqlite3/sqlite3.go b/adapter/sqlite3/sqlite3.go
index 12c6d7c..a2c6db1 100644
--- a/adapter/sqlite3/sqlite3.go
+++ b/adapter/sqlite3/sqlite3.go
@@ -26,7 +26,7 @@ func NewDatabase(config adapter.Config) (adapter.Database, error) {
 
 func (d *Sqlite3Database) TableNames() ([]string, error) {
 	rows, err := d.db.Query(
-		`select tbl_name from sqlite_master where type = 'table' and tbl_name not like 'sqlite_%'`,
+		`select tbl_name from sqlite_master where type = 'table' and tbl_name not like 'sqlite\_%' escape '\'`,
 	)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 03f906dc2a5f2439710b8c436f00872644597581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:22 +0000
Subject: [PATCH 66/85] fix: postgres: create a view anew when its columns
 change

---
 schema/ast.go       |  2 ++
 schema/generator.go | 71 +++++++++++++++++++++++++++++++++++++++++++++
 schema/parser.go    | 44 ++++++++++++++++++++++++++++
 3 files changed, 117 insertions(+)

diff --git a/schema/ast.go b/schema/ast.go
index e407ee3..448ac68 100644
--- a/schema/ast.go
+++ b/schema/ast.go
@@ -135,6 +135,8 @@ type View struct {
 	statement  string
 	name       string
 	definition string
+	columns    []string // nil if unknown
+	tables     []string
 }
 
 type Trigger struct {
diff --git a/schema/generator.go b/schema/generator.go
index 781f7b7..36308d4 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -730,9 +730,18 @@ func (g *Generator) generateDDLsForCreateView(viewName string, desiredView *View
 			if g.mode == GeneratorModeSQLite3 || g.mode == GeneratorModeMssql {
 				ddls = append(ddls, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(viewName)))
 				ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", g.escapeTableName(viewName), desiredView.definition))
+			} else if g.mode == GeneratorModePostgres && !keepsViewColumns(currentView, desiredView) {
+				// Columns of a view can be only added at the end by CREATE OR REPLACE VIEW.
+				// The views which select from it are dropped together, and added again when they are desired.
+				for _, view := range sortViewsForDrop(g.findDependentViews(currentView)) {
+					ddls = append(ddls, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(view.name)))
+					g.currentViews = removeView(g.currentViews, view)
+				}
+				ddls = append(ddls, desiredView.statement)
 			} else {
 				ddls = append(ddls, fmt.Sprintf("CREATE OR REPLACE VIEW %s AS %s", g.escapeTableName(viewName), desiredView.definition))
 			}
+			currentView.tables = desiredView.tables
 		}
 	}
 
@@ -745,6 +754,68 @@ func (g *Generator) generateDDLsForCreateView(viewName string, desiredView *View
 	return ddls, nil
 }
 
+// Whether the columns of the view remain and new ones come last, as far as their names are known.
+func keepsViewColumns(currentView, desiredView *View) bool {
+	if currentView.columns == nil || desiredView.columns == nil {
+		return true
+	}
+	if len(desiredView.columns) < len(currentView.columns) {
+		return false
+	}
+	for i, column := range currentView.columns {
+		if desiredView.columns[i] != column {
+			return false
+		}
+	}
+	return true
+}
+
+// The view and the ones which select from it, unless they have been already examined.
+func (g *Generator) findDependentViews(view *View) []*View {
+	views := []*View{view}
+	for i := 0; i < len(views); i++ {
+		for _, currentView := range g.currentViews {
+			if containsString(currentView.tables, views[i].name) && findViewByName(views, currentView.name) == nil && findViewByName(g.desiredViews, currentView.name) == nil {
+				views = append(views, currentView)
+			}
+		}
+	}
+	return views
+}
+
+func removeView(views []*View, view *View) []*View {
+	ret := []*View{}
+	for _, v := range views {
+		if v != view {
+			ret = append(ret, v)
+		}
+	}
+	return ret
+}
+
+// Put views prior to the ones they select from.
+func sortViewsForDrop(views []*View) []*View {
+	sorted := []*View{}
+	for len(sorted) < len(views) {
+		count := len(sorted)
+		for _, view := range views {
+			used := false
+			for _, other := range views {
+				if other != view && findViewByName(sorted, other.name) == nil && containsString(other.tables, view.name) {
+					used = true
+				}
+			}
+			if !used && findViewByName(sorted, view.name) == nil {
+				sorted = append(sorted, view)
+			}
+		}
+		if len(sorted) == count { // doubly defined views
+			return views
+		}
+	}
+	return sorted
+}
+
 func (g *Generator) generateDDLsForCreateTrigger(triggerName string, desiredTrigger *Trigger) ([]string, error) {
 	var ddls []string
 	currentTrigger := findTriggerByName(g.currentTriggers, triggerName)
diff --git a/schema/parser.go b/schema/parser.go
index 93fb05d..fcec24f 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -448,6 +448,8 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 				statement:  ddl,
 				name:       normalizedTableName(mode, stmt.View.Name),
 				definition: formatNode(mode, stmt.View.Definition),
+				columns:    parseViewColumns(stmt.View.Definition),
+				tables:     parseViewTables(mode, stmt.View.Definition),
 			}, nil
 		} else if stmt.Action == "create trigger" {
 			body := []string{}
@@ -525,6 +527,48 @@ func normalizedTableName(mode GeneratorMode, tableName sqlparser.TableName) stri
 	return table
 }
 
+// Names of the columns of a view, or nil if they are not obvious
+func parseViewColumns(definition sqlparser.SelectStatement) []string {
+	switch definition := definition.(type) {
+	case *sqlparser.ParenSelect:
+		return parseViewColumns(definition.Select)
+	case *sqlparser.Union:
+		return parseViewColumns(definition.Left)
+	case *sqlparser.Select:
+		columns := []string{}
+		for _, selectExpr := range definition.SelectExprs {
+			expr, ok := selectExpr.(*sqlparser.AliasedExpr)
+			if !ok {
+				return nil
+			}
+			if !expr.As.IsEmpty() {
+				columns = append(columns, expr.As.String())
+			} else if column, ok := expr.Expr.(*sqlparser.ColName); ok {
+				columns = append(columns, column.Name.String())
+			} else {
+				return nil
+			}
+		}
+		return columns
+	default:
+		return nil
+	}
+}
+
+// Names of the tables and views which a view selects from
+func parseViewTables(mode GeneratorMode, definition sqlparser.SelectStatement) []string {
+	tables := []string{}
+	_ = sqlparser.Walk(func(node sqlparser.SQLNode) (bool, error) {
+		if expr, ok := node.(*sqlparser.AliasedTableExpr); ok {
+			if table, ok := expr.Expr.(sqlparser.TableName); ok {
+				tables = append(tables, normalizedTableName(mode, table))
+			}
+		}
+		return true, nil
+	}, definition)
+	return tables
+}
+
 // TODO: parse charset in parser.y instead of "detecting" it
 func detectCharset(table sqlparser.TableSpec) string {
 	options := strings.FieldsFunc(table.Options, func(r rune) bool {
-- 
2.43.0


From f04881032ef2d1ef4c5db5c8a02aeae02f58a15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:24 +0000
Subject: [PATCH 67/85] fix: drop obsolete views, policies and tables before
 what they use

---
 schema/generator.go | 88 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 68 insertions(+), 20 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 36308d4..186b587 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -164,15 +164,49 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 		}
 	}
 
-	// Clean up obsoleted tables, indexes, columns
+	// Clean up obsoleted views
+	obsoletedViews := []*View{}
+	for _, currentView := range g.currentViews {
+		if !containsString(convertViewNames(g.desiredViews), currentView.name) {
+			obsoletedViews = append(obsoletedViews, currentView)
+		}
+	}
+	viewDDLs := []string{}
+	for _, view := range sortViewsForDrop(obsoletedViews) {
+		viewDDLs = append(viewDDLs, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(view.name)))
+	}
+	if g.mode == GeneratorModePostgres {
+		// The tables and columns that a view uses cannot be dropped.
+		ddls = append(ddls, viewDDLs...)
+	}
+
+	// Clean up obsoleted tables, prior to the ones they refer to
+	obsoletedTables := []*Table{}
 	for _, currentTable := range g.currentTables {
-		desiredTable := findTableByName(g.desiredTables, currentTable.name)
-		if desiredTable == nil {
-			// Obsoleted table found. Drop table.
-			ddls = append(ddls, fmt.Sprintf("DROP TABLE %s", g.escapeTableName(currentTable.name)))
+		if findTableByName(g.desiredTables, currentTable.name) == nil {
+			obsoletedTables = append(obsoletedTables, currentTable)
 			g.currentTables = removeTableByName(g.currentTables, currentTable.name)
-			continue
 		}
+	}
+	for len(obsoletedTables) > 0 {
+		table := findUnreferencedTable(obsoletedTables)
+		if table == nil { // They refer to each other.
+			table = obsoletedTables[0]
+			for _, otherTable := range obsoletedTables {
+				for _, foreignKey := range otherTable.foreignKeys {
+					if otherTable != table && foreignKey.referenceName == table.name {
+						ddls = append(ddls, g.generateDDLsForAbsentForeignKey(foreignKey, *otherTable, *otherTable)...)
+					}
+				}
+			}
+		}
+		ddls = append(ddls, fmt.Sprintf("DROP TABLE %s", g.escapeTableName(table.name)))
+		obsoletedTables = removeTableByName(obsoletedTables, table.name)
+	}
+
+	// Clean up obsoleted indexes, columns
+	for _, currentTable := range g.currentTables {
+		desiredTable := findTableByName(g.desiredTables, currentTable.name)
 
 		// Table is expected to exist. Check indexes
 		for _, index := range currentTable.indexes {
@@ -190,6 +224,14 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 			// TODO: simulate to remove index from `currentTable.indexes`?
 		}
 
+		// Check policies prior to the columns they use.
+		for _, policy := range currentTable.policies {
+			if containsString(convertPolicyNames(desiredTable.policies), policy.name) {
+				continue
+			}
+			ddls = append(ddls, fmt.Sprintf("DROP POLICY %s ON %s", g.escapeSQLName(policy.name), g.escapeTableName(currentTable.name)))
+		}
+
 		// Check columns.
 		for _, column := range currentTable.columns {
 			if containsString(convertColumnsToColumnNames(desiredTable.columns), column.name) {
@@ -201,22 +243,10 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 			ddls = append(ddls, columnDDLs...)
 			// TODO: simulate to remove column from `currentTable.columns`?
 		}
-
-		// Check policies.
-		for _, policy := range currentTable.policies {
-			if containsString(convertPolicyNames(desiredTable.policies), policy.name) {
-				continue
-			}
-			ddls = append(ddls, fmt.Sprintf("DROP POLICY %s ON %s", g.escapeSQLName(policy.name), g.escapeTableName(currentTable.name)))
-		}
 	}
 
-	// Clean up obsoleted views
-	for _, currentView := range g.currentViews {
-		if containsString(convertViewNames(g.desiredViews), currentView.name) {
-			continue
-		}
-		ddls = append(ddls, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(currentView.name)))
+	if g.mode != GeneratorModePostgres {
+		ddls = append(ddls, viewDDLs...)
 	}
 
 	return ddls, nil
@@ -1453,6 +1483,24 @@ func findTableByName(tables []*Table, name string) *Table {
 	return nil
 }
 
+// Find a table which no other one refers to.
+func findUnreferencedTable(tables []*Table) *Table {
+	for _, table := range tables {
+		referenced := false
+		for _, otherTable := range tables {
+			for _, foreignKey := range otherTable.foreignKeys {
+				if otherTable != table && foreignKey.referenceName == table.name {
+					referenced = true
+				}
+			}
+		}
+		if !referenced {
+			return table
+		}
+	}
+	return nil
+}
+
 func findColumnByName(columns []Column, name string) *Column {
 	for _, column := range columns {
 		if column.name == name {
-- 
2.43.0


From 287e8a013c42691ee9fa2c4525944064ecc5ed8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:26 +0000
Subject: [PATCH 68/85] fix: generate and replace foreign keys of ALTER TABLE
 statements

---
 schema/generator.go | 46 +++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 186b587..b83d333 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -618,18 +618,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 		if currentForeignKey := findForeignKeyByName(currentTable.foreignKeys, desiredForeignKey.constraintName); currentForeignKey != nil {
 			// Drop and add foreign key as needed.
 			if !g.areSameForeignKeys(*currentForeignKey, desiredForeignKey) {
-				switch g.mode {
-				case GeneratorModeMysql:
-					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP FOREIGN KEY %s", g.escapeTableName(desired.table.name), g.escapeSQLName(currentForeignKey.constraintName)))
-					if !reflect.DeepEqual(currentForeignKey.indexColumns, desiredForeignKey.indexColumns) &&
-						findIndexByName(currentTable.indexes, desiredForeignKey.constraintName) != nil && findIndexByName(desired.table.indexes, desiredForeignKey.constraintName) == nil {
-						// The index made for the foreign key is on other columns
-						ddls = append(ddls, g.generateDropIndex(desired.table.name, desiredForeignKey.constraintName))
-					}
-				case GeneratorModePostgres, GeneratorModeMssql:
-					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(currentForeignKey.constraintName)))
-				default:
-				}
+				ddls = append(ddls, g.generateDDLsForChangedForeignKey(*currentForeignKey, desiredForeignKey, currentTable, desired.table)...)
 				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ADD %s", g.escapeTableName(desired.table.name), g.generateForeignKeyDefinition(desiredForeignKey)))
 			}
 		} else {
@@ -695,8 +684,6 @@ func (g *Generator) generateDDLsForCreateIndex(tableName string, desiredIndex In
 func (g *Generator) generateDDLsForAddForeignKey(tableName string, desiredForeignKey ForeignKey, action string, statement string) ([]string, error) {
 	var ddls []string
 
-	// TODO: Simulate currentTable.foreignKeys too
-
 	// Examine indexes in desiredTable to delete obsoleted indexes later
 	desiredTable := findTableByName(g.desiredTables, tableName)
 	if desiredTable == nil {
@@ -710,6 +697,17 @@ func (g *Generator) generateDDLsForAddForeignKey(tableName string, desiredForeig
 	}
 	desiredTable.foreignKeys = append(desiredTable.foreignKeys, desiredForeignKey)
 
+	currentTable := findTableByName(g.currentTables, tableName) // never nil since it's desired
+	currentForeignKey := findForeignKeyByName(currentTable.foreignKeys, desiredForeignKey.constraintName)
+	if currentForeignKey == nil {
+		// Foreign key not found, add foreign key.
+		ddls = append(ddls, statement)
+	} else if !g.areSameForeignKeys(*currentForeignKey, desiredForeignKey) {
+		// Foreign key found. If it's different, drop and add foreign key.
+		ddls = append(ddls, g.generateDDLsForChangedForeignKey(*currentForeignKey, desiredForeignKey, *currentTable, *desiredTable)...)
+		ddls = append(ddls, statement)
+	}
+
 	return ddls, nil
 }
 
@@ -881,6 +879,26 @@ func (g *Generator) generateDDLsForCreateTrigger(triggerName string, desiredTrig
 	return ddls, nil
 }
 
+// Drop a foreign key which is going to be added with another definition.
+func (g *Generator) generateDDLsForChangedForeignKey(currentForeignKey, desiredForeignKey ForeignKey, currentTable, desiredTable Table) []string {
+	ddls := []string{}
+
+	switch g.mode {
+	case GeneratorModeMysql:
+		ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP FOREIGN KEY %s", g.escapeTableName(desiredTable.name), g.escapeSQLName(currentForeignKey.constraintName)))
+		if !reflect.DeepEqual(currentForeignKey.indexColumns, desiredForeignKey.indexColumns) &&
+			findIndexByName(currentTable.indexes, desiredForeignKey.constraintName) != nil && findIndexByName(desiredTable.indexes, desiredForeignKey.constraintName) == nil {
+			// The index made for the foreign key is on other columns
+			ddls = append(ddls, g.generateDropIndex(desiredTable.name, desiredForeignKey.constraintName))
+		}
+	case GeneratorModePostgres, GeneratorModeMssql:
+		ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desiredTable.name), g.escapeSQLName(currentForeignKey.constraintName)))
+	default:
+	}
+
+	return ddls
+}
+
 // Even though simulated table doesn't have a foreign key, references could exist in column definitions.
 // This carefully generates DROP CONSTRAINT for such situations.
 func (g *Generator) generateDDLsForAbsentForeignKey(currentForeignKey ForeignKey, currentTable Table, desiredTable Table) []string {
-- 
2.43.0


From 913ab7e7a95b1980c7c4ede331a60a14716a8f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:28 +0000
Subject: [PATCH 69/85] fix: postgres: drop an index which moves to another
 table

---
 schema/generator.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index b83d333..22677f3 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -648,6 +648,7 @@ func (g *Generator) generateDDLsForCreateIndex(tableName string, desiredIndex In
 	currentIndex := findIndexByName(currentTable.indexes, desiredIndex.name)
 	if currentIndex == nil {
 		// Index not found, add index.
+		ddls = append(ddls, g.generateDDLsForMovedIndex(tableName, desiredIndex.name)...)
 		ddls = append(ddls, statement)
 		currentTable.indexes = append(currentTable.indexes, desiredIndex)
 	} else {
@@ -681,6 +682,31 @@ func (g *Generator) generateDDLsForCreateIndex(tableName string, desiredIndex In
 	return ddls, nil
 }
 
+// The names of Postgres indexes are shared by all tables of a schema. Drop the index of that name from another table.
+func (g *Generator) generateDDLsForMovedIndex(tableName string, indexName string) []string {
+	ddls := []string{}
+	if g.mode != GeneratorModePostgres {
+		return ddls
+	}
+
+	schemaName, _ := g.splitTableName(tableName)
+	for _, table := range g.currentTables {
+		if otherSchemaName, _ := g.splitTableName(table.name); otherSchemaName != schemaName || table.name == tableName {
+			continue
+		}
+		indexes := []Index{}
+		for _, index := range table.indexes {
+			if index.name == indexName {
+				ddls = append(ddls, g.generateDropIndex(table.name, index.name))
+			} else {
+				indexes = append(indexes, index)
+			}
+		}
+		table.indexes = indexes
+	}
+	return ddls
+}
+
 func (g *Generator) generateDDLsForAddForeignKey(tableName string, desiredForeignKey ForeignKey, action string, statement string) ([]string, error) {
 	var ddls []string
 
-- 
2.43.0


From a2d83da2950401c3ac4c6be90815d5ef4696a763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:30 +0000
Subject: [PATCH 70/85] fix: postgres: add and drop UNIQUE of an existing
 column as a constraint

---
 schema/generator.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 22677f3..062f24d 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -422,6 +422,12 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					}
 				}
 
+				// UNIQUE
+				if desiredColumn.keyOption.isUnique() && !currentColumn.keyOption.isUnique() {
+					uniqueKeyName := g.uniqueKeyName(desired.table.name, desiredColumn.name)
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ADD CONSTRAINT %s UNIQUE (%s)", g.escapeTableName(desired.table.name), g.escapeSQLName(uniqueKeyName), g.escapeSQLName(desiredColumn.name)))
+				}
+
 				// GENERATED AS IDENTITY
 				if !areSameIdentityDefinition(currentColumn.identity, desiredColumn.identity) {
 					if currentColumn.identity == nil {
@@ -993,7 +999,7 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 
 		if uniqueKeyColumn == nil {
 			// No unique column. Drop unique key index.
-			ddls = append(ddls, g.generateDropIndex(currentTable.name, currentIndex.name))
+			ddls = append(ddls, g.generateDropUniqueKey(currentTable, currentIndex))
 		}
 	} else {
 		ddls = append(ddls, g.generateDropIndex(currentTable.name, currentIndex.name))
@@ -1269,6 +1275,22 @@ func (g *Generator) generateForeignKeyDefinition(foreignKey ForeignKey) string {
 	return strings.TrimSuffix(definition, " ")
 }
 
+// An index of a unique column is dropped with its constraint on Postgres.
+func (g *Generator) generateDropUniqueKey(currentTable Table, currentIndex Index) string {
+	if g.mode == GeneratorModePostgres && len(currentIndex.columns) == 1 {
+		column := findColumnByName(currentTable.columns, currentIndex.columns[0].column)
+		if column != nil && column.keyOption.isUnique() && currentIndex.name == g.uniqueKeyName(currentTable.name, column.name) {
+			return fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(currentIndex.name))
+		}
+	}
+	return g.generateDropIndex(currentTable.name, currentIndex.name)
+}
+
+// The name that Postgres gives to the constraint of a unique column
+func (g *Generator) uniqueKeyName(tableName string, columnName string) string {
+	return fmt.Sprintf("%s_%s_key", g.tableNameWithoutSchema(tableName), columnName)
+}
+
 func (g *Generator) generateDropIndex(tableName string, indexName string) string {
 	switch g.mode {
 	case GeneratorModeMysql:
-- 
2.43.0


From d626d3913c88403eb780bd21261beb0a63355a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:13 +0000
Subject: [PATCH 71/85] fix: mysql: compare CHECK of a column by its definition

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 062f24d..d38bc85 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1645,7 +1645,7 @@ func (g *Generator) haveSameColumnDefinition(current Column, desired Column) boo
 		(current.unsigned == desired.unsigned) &&
 		((current.notNull != nil && *current.notNull) == ((desired.notNull != nil && *desired.notNull) || desired.keyOption == ColumnKeyPrimary)) && // `PRIMARY KEY` implies `NOT NULL`
 		(current.timezone == desired.timezone) &&
-		(current.check == desired.check) &&
+		areSameCheckDefinition(current.check, desired.check) &&
 		(desired.charset == "" || strings.EqualFold(current.charset, desired.charset)) && // detect change column only when set explicitly. TODO: can we calculate implicit charset?
 		(desired.collate == "" || areSameCollations(current.collate, desired.collate)) && // detect change column only when set explicitly. TODO: can we calculate implicit collate?
 		reflect.DeepEqual(current.onUpdate, desired.onUpdate)
-- 
2.43.0


From 5693c3c8bd2ba93a331c84915fe28f89b83d3d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:13 +0000
Subject: [PATCH 72/85] fix: know the aliases of decimal and double

---
 schema/generator.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index d38bc85..a2f0536 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -22,12 +22,18 @@ const (
 var (
 	dataTypeAliases = map[string]string{
 		"bool":    "boolean",
+		"numeric": "decimal",
 		"int":     "integer",
 		"char":    "character",
 		"varchar": "character varying",
 	}
 	mysqlDataTypeAliases = map[string]string{
-		"boolean": "tinyint",
+		"boolean":          "tinyint",
+		"real":             "double",
+		"double precision": "double",
+	}
+	postgresDataTypeAliases = map[string]string{
+		"float": "double precision",
 	}
 )
 
@@ -1804,6 +1810,12 @@ func (g *Generator) normalizeDataType(dataType string) string {
 			dataType = alias
 		}
 	}
+	if g.mode == GeneratorModePostgres {
+		alias, ok = postgresDataTypeAliases[dataType]
+		if ok {
+			dataType = alias
+		}
+	}
 	return dataType
 }
 
-- 
2.43.0


From 6bcc960d0ddba285a322e46df32ddb81e2a1c931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:13 +0000
Subject: [PATCH 73/85] fix: compare a type with a length to the same type
 without one

---
 schema/generator.go | 55 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index a2f0536..b3fad21 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1668,21 +1668,58 @@ func (g *Generator) haveSameDataType(current Column, desired Column) bool {
 	return g.normalizeDataType(current.typeName) == g.normalizeDataType(desired.typeName) &&
 		reflect.DeepEqual(current.enumValues, desired.enumValues) &&
 		g.haveSameLength(current, desired) &&
-		(current.scale == nil || desired.scale == nil || current.scale.intVal == desired.scale.intVal) &&
 		current.array == desired.array
 }
 
 func (g *Generator) haveSameLength(current Column, desired Column) bool {
-	if current.length != nil && desired.length != nil {
-		return current.length.intVal == desired.length.intVal
-	}
-	if g.mode == GeneratorModeMysql {
-		switch desired.typeName {
-		case "datetime", "timestamp", "time": // no fractional seconds
-			return (current.length == nil || current.length.intVal == 0) && (desired.length == nil || desired.length.intVal == 0)
+	if g.mode == GeneratorModeMysql || g.mode == GeneratorModePostgres {
+		if length, scale, ok := g.defaultLength(desired.typeName); ok {
+			currentLength, currentScale := lengthOf(current, length, scale)
+			desiredLength, desiredScale := lengthOf(desired, length, scale)
+			return currentLength == desiredLength && currentScale == desiredScale
 		}
 	}
-	return true // detect change column only when both are set explicitly. TODO: maybe `current.length == nil` case needs another care
+	if current.length != nil && desired.length != nil && current.length.intVal != desired.length.intVal {
+		return false
+	}
+	// detect change column only when both are set explicitly. TODO: maybe `current.length == nil` case needs another care
+	return current.scale == nil || desired.scale == nil || current.scale.intVal == desired.scale.intVal
+}
+
+// The length and scale of a type declared without them. It's false when they don't matter or are unknown.
+func (g *Generator) defaultLength(typeName string) (int, int, bool) {
+	switch dataType := g.normalizeDataType(typeName); dataType {
+	case "bit", "character", "binary":
+		return 1, 0, true
+	case "decimal":
+		if g.mode == GeneratorModeMysql {
+			return 10, 0, true
+		}
+		return -1, 0, true // any precision and scale
+	case "datetime":
+		return 0, 0, true
+	case "timestamp", "time":
+		if g.mode == GeneratorModeMysql {
+			return 0, 0, true
+		}
+		return -1, 0, true
+	case "double", "float":
+		return -1, 0, true
+	case "character varying":
+		return -1, 0, g.mode == GeneratorModePostgres
+	default:
+		return 0, 0, false
+	}
+}
+
+func lengthOf(column Column, length, scale int) (int, int) {
+	if column.length != nil {
+		length = column.length.intVal
+	}
+	if column.scale != nil {
+		scale = column.scale.intVal
+	}
+	return length, scale
 }
 
 func areSameCheckDefinition(checkA *CheckDefinition, checkB *CheckDefinition) bool {
-- 
2.43.0


From cbaf01d627570be280200c719ea309a9beadd433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:13 +0000
Subject: [PATCH 74/85] fix: mysql: parse YEAR with a length

---
 sqlparser/parser.go | 2717 ++++++++++++++++++++++---------------------
 sqlparser/parser.y  |    4 +-
 2 files changed, 1362 insertions(+), 1359 deletions(-)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 5acae61..4fd0478 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -764,326 +764,329 @@ var yyExca = [...]int{
 	-1, 797,
 	109, 752,
 	-2, 748,
-	-1, 1039,
+	-1, 1040,
 	5, 28,
 	-2, 551,
-	-1, 1064,
+	-1, 1065,
 	5, 27,
 	-2, 690,
-	-1, 1165,
+	-1, 1166,
 	5, 27,
 	-2, 64,
-	-1, 1382,
+	-1, 1383,
 	5, 28,
 	-2, 691,
-	-1, 1465,
+	-1, 1466,
 	5, 27,
 	-2, 693,
-	-1, 1590,
+	-1, 1591,
 	5, 28,
 	-2, 694,
 }
 
 const yyPrivate = 57344
 
-const yyLast = 14695
+const yyLast = 14727
 
 var yyAct = [...]int{
-	273, 1580, 1515, 1067, 1478, 974, 1475, 270, 729, 861,
-	498, 1597, 1098, 579, 1388, 1519, 1401, 1252, 1542, 578,
-	3, 1156, 1279, 464, 773, 302, 1280, 879, 1167, 1253,
-	1101, 276, 644, 903, 646, 89, 909, 277, 89, 1249,
-	1129, 902, 969, 1083, 982, 251, 862, 822, 923, 1123,
-	833, 53, 1031, 830, 266, 245, 348, 1225, 66, 735,
-	1072, 964, 89, 89, 353, 1153, 849, 250, 662, 353,
-	952, 918, 353, 353, 345, 799, 511, 517, 89, 462,
-	89, 648, 661, 858, 279, 633, 89, 942, 523, 330,
-	342, 275, 602, 1013, 328, 335, 260, 339, 337, 246,
-	247, 248, 249, 607, 531, 608, 1137, 939, 545, 52,
-	264, 555, 1661, 1305, 936, 832, 555, 1622, 1407, 329,
-	465, 466, 1292, 593, 1293, 1654, 1414, 1695, 1638, 1691,
-	86, 1588, 1535, 544, 543, 553, 554, 546, 547, 548,
-	549, 550, 551, 552, 545, 1121, 333, 555, 553, 554,
-	546, 547, 548, 549, 550, 551, 552, 545, 338, 1547,
-	555, 1157, 1158, 1682, 975, 1626, 1647, 1637, 1244, 1373,
-	1611, 1376, 1546, 477, 1587, 478, 475, 1091, 1275, 1276,
-	1090, 485, 663, 1092, 664, 938, 1274, 539, 892, 542,
-	506, 1136, 48, 26, 27, 557, 558, 559, 560, 561,
-	562, 563, 898, 540, 541, 538, 544, 543, 553, 554,
-	546, 547, 548, 549, 550, 551, 552, 545, 893, 894,
-	555, 1431, 1430, 1133, 89, 1135, 1134, 764, 353, 353,
-	353, 353, 1139, 353, 765, 941, 953, 1506, 853, 1325,
+	273, 1543, 1476, 1516, 1068, 1479, 975, 1581, 1099, 861,
+	729, 1520, 1389, 579, 1253, 498, 1102, 773, 578, 3,
+	1598, 464, 302, 1402, 1157, 879, 1254, 1168, 903, 1281,
+	952, 1280, 276, 1124, 251, 89, 1250, 983, 89, 646,
+	644, 909, 970, 923, 245, 1130, 902, 898, 1226, 1084,
+	822, 833, 53, 862, 1032, 348, 66, 735, 965, 279,
+	830, 1154, 89, 89, 353, 918, 250, 1073, 270, 353,
+	662, 849, 353, 353, 277, 799, 511, 517, 89, 345,
+	89, 462, 661, 648, 633, 330, 89, 342, 246, 247,
+	248, 249, 858, 1014, 602, 523, 329, 339, 337, 275,
+	607, 608, 328, 531, 260, 593, 1138, 52, 939, 1662,
+	1306, 264, 936, 832, 545, 1623, 1408, 555, 539, 1294,
+	542, 333, 335, 1415, 555, 1655, 557, 558, 559, 560,
+	561, 562, 563, 1696, 540, 541, 538, 544, 543, 553,
+	554, 546, 547, 548, 549, 550, 551, 552, 545, 1373,
+	510, 555, 465, 466, 1122, 1639, 1692, 86, 1536, 544,
+	543, 553, 554, 546, 547, 548, 549, 550, 551, 552,
+	545, 1370, 510, 555, 1589, 1547, 1548, 1158, 1159, 1683,
+	976, 1627, 1638, 1613, 1648, 338, 938, 544, 543, 553,
+	554, 546, 547, 548, 549, 550, 551, 552, 545, 1245,
+	477, 555, 478, 1293, 510, 1612, 1377, 475, 485, 544,
+	543, 553, 554, 546, 547, 548, 549, 550, 551, 552,
+	545, 1588, 1275, 555, 89, 1276, 1277, 892, 353, 353,
+	353, 353, 663, 353, 664, 48, 26, 27, 506, 1374,
 	353, 544, 543, 553, 554, 546, 547, 548, 549, 550,
-	551, 552, 545, 1324, 1365, 555, 546, 547, 548, 549,
-	550, 551, 552, 545, 1363, 1454, 555, 353, 943, 244,
-	548, 549, 550, 551, 552, 545, 520, 965, 555, 1575,
-	1517, 737, 738, 1653, 1494, 1655, 491, 1565, 570, 571,
-	572, 573, 574, 575, 576, 465, 466, 1335, 1336, 1680,
-	736, 1125, 1126, 1127, 502, 503, 519, 514, 518, 1130,
-	1128, 299, 300, 84, 80, 81, 82, 556, 1690, 487,
-	1581, 1203, 556, 859, 536, 1340, 1582, 919, 89, 1462,
-	1372, 510, 1409, 1536, 1408, 89, 89, 89, 1115, 1114,
-	1341, 353, 920, 1404, 1419, 1286, 1103, 353, 1369, 510,
-	493, 345, 495, 556, 1418, 1669, 1349, 1526, 580, 566,
-	1421, 880, 882, 1287, 510, 480, 556, 591, 544, 543,
+	551, 552, 545, 893, 894, 555, 553, 554, 546, 547,
+	548, 549, 550, 551, 552, 545, 936, 353, 555, 1221,
+	1432, 1092, 764, 1617, 1091, 520, 1431, 1093, 1140, 765,
+	941, 496, 953, 1654, 1507, 1656, 1619, 853, 925, 544,
+	543, 553, 554, 546, 547, 548, 549, 550, 551, 552,
+	545, 1326, 932, 555, 921, 1614, 943, 519, 1137, 1371,
+	922, 544, 543, 553, 554, 546, 547, 548, 549, 550,
+	551, 552, 545, 556, 1325, 555, 1455, 1366, 89, 301,
+	556, 1364, 966, 244, 566, 89, 89, 89, 1495, 1576,
+	1134, 353, 1136, 1135, 736, 1518, 487, 353, 1566, 570,
+	571, 572, 573, 574, 575, 576, 345, 556, 1691, 1537,
+	1126, 1127, 1128, 928, 1420, 924, 933, 1582, 1131, 1129,
+	299, 300, 930, 929, 1419, 1204, 465, 466, 1681, 556,
+	1422, 544, 543, 553, 554, 546, 547, 548, 549, 550,
+	551, 552, 545, 347, 333, 555, 1296, 859, 468, 737,
+	738, 472, 473, 1421, 1336, 1337, 1109, 556, 546, 547,
+	548, 549, 550, 551, 552, 545, 1548, 1647, 555, 1405,
+	1583, 595, 596, 597, 598, 599, 600, 601, 1463, 556,
+	1615, 1616, 1618, 1620, 1621, 653, 1121, 1410, 659, 543,
 	553, 554, 546, 547, 548, 549, 550, 551, 552, 545,
-	492, 494, 555, 1420, 470, 78, 544, 543, 553, 554,
-	546, 547, 548, 549, 550, 551, 552, 545, 1295, 1646,
-	555, 544, 543, 553, 554, 546, 547, 548, 549, 550,
-	551, 552, 545, 1547, 1439, 555, 1586, 467, 966, 333,
-	953, 737, 738, 628, 946, 743, 556, 1120, 77, 1082,
-	78, 1081, 652, 1108, 476, 653, 881, 1080, 659, 595,
-	596, 597, 598, 599, 600, 601, 544, 543, 553, 554,
-	546, 547, 548, 549, 550, 551, 552, 545, 727, 223,
-	555, 556, 301, 49, 1106, 79, 83, 1204, 89, 1402,
-	1403, 1405, 556, 1200, 1686, 89, 1540, 89, 353, 1385,
-	89, 1132, 1136, 89, 556, 568, 569, 89, 1212, 353,
-	353, 353, 353, 353, 353, 353, 353, 1047, 919, 1025,
-	771, 535, 490, 353, 353, 486, 900, 899, 89, 768,
-	1008, 57, 528, 920, 1133, 1319, 1135, 1134, 530, 1558,
-	1208, 850, 1557, 353, 529, 528, 347, 89, 530, 919,
-	1556, 468, 1555, 353, 472, 473, 59, 60, 61, 62,
-	63, 530, 1554, 752, 920, 798, 796, 1553, 807, 808,
-	809, 810, 811, 812, 813, 814, 815, 816, 817, 818,
-	819, 820, 821, 728, 800, 776, 1320, 680, 1552, 676,
-	739, 1201, 740, 1199, 1550, 744, 1332, 353, 747, 806,
-	750, 1070, 665, 786, 787, 1246, 1202, 1493, 556, 1009,
-	1100, 732, 797, 804, 805, 803, 1207, 469, 1111, 75,
-	479, 837, 850, 766, 1054, 1044, 556, 543, 553, 554,
-	546, 547, 548, 549, 550, 551, 552, 545, 778, 1598,
-	555, 556, 785, 801, 842, 845, 525, 76, 89, 795,
-	851, 89, 89, 89, 89, 89, 580, 793, 1599, 840,
-	841, 510, 1496, 89, 1672, 1110, 89, 70, 73, 825,
-	89, 1492, 1671, 529, 528, 89, 89, 529, 528, 353,
-	827, 828, 71, 74, 1100, 837, 556, 863, 471, 345,
-	530, 474, 353, 1100, 530, 1652, 1651, 855, 847, 72,
-	68, 1650, 904, 482, 483, 484, 1099, 887, 327, 1600,
-	347, 347, 347, 347, 1551, 347, 529, 528, 838, 839,
-	50, 1596, 347, 1248, 846, 789, 791, 792, 1100, 1504,
-	802, 790, 1433, 530, 1432, 333, 333, 333, 333, 333,
-	897, 865, 866, 860, 868, 1301, 1648, 876, 353, 533,
-	333, 884, 353, 1162, 353, 89, 885, 89, 854, 333,
-	856, 857, 89, 890, 89, 774, 775, 89, 353, 889,
-	864, 888, 907, 867, 1022, 1023, 1024, 1424, 1160, 509,
-	1140, 1140, 954, 955, 956, 957, 463, 971, 1649, 521,
-	944, 945, 947, 948, 949, 1461, 950, 951, 823, 1043,
-	824, 1042, 796, 967, 968, 1370, 1423, 1428, 1351, 1548,
-	1140, 529, 528, 960, 961, 962, 1154, 963, 529, 528,
-	69, 1117, 1290, 347, 1289, 1288, 1180, 1109, 530, 667,
-	1093, 1226, 1028, 1029, 1030, 530, 21, 770, 1573, 1699,
-	1469, 1688, 1398, 1681, 1011, 1012, 556, 518, 797, 800,
-	981, 919, 986, 1398, 1660, 510, 914, 1003, 913, 1004,
-	915, 916, 1005, 977, 1228, 917, 920, 1398, 1659, 1568,
-	1014, 826, 769, 1015, 1398, 1645, 1567, 544, 543, 553,
-	554, 546, 547, 548, 549, 550, 551, 552, 545, 529,
-	528, 555, 255, 1573, 1644, 1511, 1181, 1177, 1064, 1027,
-	1182, 1179, 1178, 749, 353, 74, 530, 89, 801, 1085,
-	1038, 1087, 1641, 1640, 1633, 510, 1183, 1398, 1630, 1021,
-	1230, 748, 1176, 353, 1235, 1055, 1229, 1469, 1578, 1398,
-	1569, 1227, 733, 904, 353, 1053, 731, 1233, 488, 1086,
-	1469, 1502, 1469, 510, 1510, 353, 1469, 1470, 1077, 481,
-	1231, 1232, 1398, 1397, 89, 463, 1095, 1271, 510, 1505,
-	347, 1384, 510, 1425, 1116, 1328, 1327, 1036, 1234, 1236,
-	656, 347, 347, 347, 347, 347, 347, 347, 347, 1416,
-	1088, 1322, 1323, 1051, 1250, 347, 347, 1068, 1131, 1322,
-	1321, 333, 1037, 510, 630, 510, 353, 835, 510, 672,
-	671, 1312, 1574, 1159, 1573, 780, 1168, 1104, 1105, 1107,
-	657, 1069, 655, 1165, 1068, 533, 23, 54, 347, 835,
-	629, 635, 638, 639, 640, 636, 353, 637, 641, 89,
-	89, 1073, 1074, 1380, 50, 1141, 1142, 89, 1144, 1145,
-	1146, 630, 1464, 1215, 630, 1155, 353, 1415, 1161, 1069,
-	1331, 1049, 630, 1046, 1143, 1037, 1217, 1435, 1434, 829,
-	1221, 1222, 50, 1173, 1326, 1094, 1172, 1174, 23, 843,
-	843, 891, 1037, 1239, 1240, 843, 1242, 1243, 1241, 292,
-	291, 294, 295, 296, 297, 1037, 353, 353, 293, 298,
-	1068, 1062, 1251, 1048, 1063, 1045, 23, 556, 1612, 658,
-	1218, 1219, 886, 772, 655, 1256, 257, 1692, 1224, 1254,
-	1273, 1237, 843, 1658, 50, 353, 1635, 353, 353, 730,
-	863, 1571, 1238, 1245, 797, 904, 863, 904, 1570, 1247,
-	1259, 1562, 1213, 1561, 1523, 1261, 1503, 1448, 1220, 1260,
-	943, 347, 50, 970, 1262, 1263, 1311, 1310, 1264, 1308,
-	1278, 1266, 50, 1291, 347, 1298, 1277, 1272, 544, 543,
+	628, 1287, 555, 1409, 84, 80, 81, 82, 1116, 652,
+	1115, 556, 946, 1587, 1104, 737, 738, 1670, 89, 502,
+	503, 919, 491, 967, 556, 89, 1350, 89, 353, 926,
+	89, 953, 1527, 89, 1288, 927, 920, 89, 1107, 353,
+	353, 353, 353, 353, 353, 353, 353, 548, 549, 550,
+	551, 552, 545, 353, 353, 555, 49, 75, 89, 556,
+	499, 500, 501, 1341, 504, 919, 480, 880, 882, 1440,
+	470, 508, 77, 353, 78, 78, 743, 89, 1342, 467,
+	920, 556, 1083, 353, 1082, 934, 493, 935, 495, 1081,
+	1133, 1137, 752, 727, 1201, 1403, 1404, 1406, 476, 223,
+	931, 796, 1205, 919, 776, 70, 73, 347, 347, 347,
+	347, 800, 347, 79, 680, 676, 492, 494, 920, 347,
+	71, 74, 1687, 1134, 1541, 1136, 1135, 353, 568, 569,
+	750, 1386, 1213, 1048, 1026, 771, 535, 72, 68, 486,
+	728, 797, 881, 900, 899, 768, 533, 739, 801, 740,
+	837, 556, 744, 1320, 530, 747, 798, 83, 1559, 807,
+	808, 809, 810, 811, 812, 813, 814, 815, 816, 817,
+	818, 819, 820, 821, 556, 806, 778, 1009, 89, 795,
+	766, 89, 89, 89, 89, 89, 793, 528, 1558, 804,
+	805, 803, 1202, 89, 1200, 1209, 89, 770, 1557, 785,
+	89, 825, 57, 530, 1321, 89, 89, 1203, 556, 353,
+	1556, 842, 845, 1555, 837, 1554, 1553, 851, 827, 828,
+	347, 1551, 353, 1333, 345, 1071, 667, 59, 60, 61,
+	62, 63, 769, 509, 855, 847, 665, 904, 490, 1247,
+	333, 333, 333, 333, 333, 887, 838, 839, 850, 529,
+	528, 850, 846, 1055, 863, 333, 1010, 1101, 69, 1497,
+	732, 556, 529, 528, 333, 1494, 530, 865, 866, 1249,
+	868, 1208, 954, 955, 956, 957, 876, 864, 353, 530,
+	867, 1101, 353, 884, 353, 89, 854, 89, 856, 857,
+	529, 528, 89, 890, 89, 885, 889, 89, 353, 525,
+	860, 76, 1045, 1673, 907, 1552, 1112, 530, 1672, 742,
+	789, 791, 792, 479, 1493, 1181, 790, 972, 774, 775,
+	753, 754, 755, 756, 757, 758, 759, 760, 888, 1425,
+	968, 969, 1100, 1141, 761, 762, 1101, 796, 544, 543,
 	553, 554, 546, 547, 548, 549, 550, 551, 552, 545,
-	1265, 965, 555, 1122, 1296, 1147, 1131, 1149, 1150, 1151,
-	1152, 1294, 1163, 1164, 89, 353, 1097, 959, 1616, 1073,
-	1074, 1079, 89, 958, 1302, 65, 1543, 353, 1436, 1250,
-	1171, 1618, 1076, 746, 734, 507, 353, 303, 47, 784,
-	972, 1078, 873, 870, 347, 869, 347, 874, 89, 875,
-	1613, 639, 640, 1666, 353, 635, 638, 639, 640, 636,
-	347, 637, 641, 353, 1315, 871, 89, 1338, 1353, 1636,
-	872, 1307, 1309, 1217, 261, 262, 1211, 1010, 1356, 524,
-	1664, 1342, 1020, 1019, 347, 47, 512, 1449, 1148, 670,
-	1344, 1350, 522, 256, 489, 979, 1300, 513, 1354, 334,
-	1378, 774, 775, 745, 1347, 1446, 1299, 1170, 973, 1329,
-	643, 258, 259, 1352, 524, 1445, 353, 1337, 353, 353,
-	353, 89, 353, 1361, 1334, 1285, 252, 1018, 353, 1656,
-	777, 1529, 1391, 1392, 1393, 1017, 253, 54, 904, 1528,
-	1452, 1379, 1069, 1346, 983, 984, 985, 1284, 1283, 353,
-	333, 1406, 526, 1377, 1560, 1394, 1387, 1559, 1411, 1537,
-	580, 1095, 1113, 1413, 1358, 1359, 1410, 1360, 1396, 767,
-	56, 1362, 58, 1364, 1175, 1614, 1615, 1617, 1619, 1620,
-	1521, 7, 353, 353, 1339, 1131, 1522, 6, 834, 836,
-	353, 654, 1168, 904, 1313, 1314, 1084, 1316, 1317, 1318,
-	353, 51, 1412, 1417, 852, 1520, 5, 1, 556, 1441,
-	1437, 1442, 1443, 1444, 1518, 347, 1438, 1566, 1119, 1399,
-	1400, 1564, 67, 1440, 1625, 1572, 1102, 1455, 1456, 1304,
-	1457, 1458, 1459, 1333, 1169, 353, 353, 1112, 1184, 976,
-	1166, 991, 1427, 1579, 1429, 1593, 1476, 911, 901, 353,
-	461, 64, 1549, 1465, 878, 912, 1254, 910, 908, 353,
-	1463, 673, 937, 1138, 1491, 497, 497, 497, 497, 1495,
-	497, 940, 1474, 679, 1490, 1489, 677, 497, 678, 675,
-	1453, 681, 674, 1499, 231, 353, 353, 89, 347, 1497,
-	353, 1507, 340, 642, 47, 666, 527, 1198, 1197, 353,
-	987, 1206, 763, 1007, 505, 233, 564, 1512, 1016, 565,
-	1089, 346, 567, 1524, 1621, 1257, 516, 1527, 347, 1451,
-	353, 1052, 590, 848, 278, 788, 290, 496, 287, 289,
-	288, 1544, 1538, 779, 1061, 537, 1539, 268, 347, 577,
-	1254, 581, 582, 583, 584, 585, 586, 587, 588, 589,
-	332, 592, 594, 594, 594, 594, 594, 594, 594, 594,
-	347, 622, 623, 624, 625, 626, 634, 632, 1426, 631,
-	1075, 1071, 645, 331, 353, 843, 1214, 1375, 1258, 1084,
-	1534, 843, 1514, 783, 1576, 25, 55, 263, 19, 18,
-	17, 353, 20, 1584, 353, 16, 1577, 1589, 353, 15,
-	14, 1594, 29, 13, 12, 1563, 11, 347, 10, 347,
-	1281, 9, 353, 353, 1608, 8, 1601, 1602, 1603, 1604,
-	1605, 353, 353, 4, 353, 863, 1606, 1607, 254, 22,
-	2, 0, 353, 1583, 580, 1609, 1034, 1631, 0, 0,
-	1035, 1629, 0, 1623, 1624, 0, 0, 1039, 1040, 1041,
-	0, 0, 0, 0, 0, 1479, 1050, 0, 0, 0,
-	0, 1056, 0, 0, 1057, 1058, 1059, 1060, 1481, 1642,
-	1643, 0, 0, 0, 0, 1657, 0, 1330, 0, 1628,
-	1508, 0, 1509, 0, 0, 1663, 353, 1662, 0, 1343,
-	353, 0, 0, 0, 0, 0, 1668, 0, 1345, 0,
-	0, 0, 1670, 0, 0, 0, 0, 89, 1665, 353,
-	0, 0, 0, 1677, 1675, 497, 1348, 1678, 0, 0,
-	89, 0, 0, 1676, 0, 347, 497, 497, 497, 497,
-	497, 497, 497, 497, 1689, 0, 1480, 353, 0, 1685,
-	497, 497, 0, 353, 1687, 1696, 0, 1693, 0, 0,
-	0, 0, 1697, 0, 0, 0, 499, 500, 501, 0,
-	504, 0, 0, 0, 0, 0, 1679, 508, 1482, 1483,
-	1484, 1485, 1486, 1487, 1488, 0, 0, 0, 1389, 0,
-	1389, 1389, 1389, 0, 1395, 0, 0, 0, 0, 0,
-	347, 0, 544, 543, 553, 554, 546, 547, 548, 549,
-	550, 551, 552, 545, 1033, 47, 555, 0, 0, 0,
-	0, 1389, 0, 0, 0, 1684, 0, 0, 0, 581,
-	936, 0, 0, 0, 544, 543, 553, 554, 546, 547,
-	548, 549, 550, 551, 552, 545, 0, 997, 555, 0,
-	0, 1032, 925, 0, 347, 347, 1223, 0, 0, 0,
-	996, 0, 1447, 0, 0, 0, 932, 0, 921, 0,
-	0, 0, 1450, 0, 922, 0, 0, 0, 334, 334,
-	334, 334, 334, 0, 1479, 0, 0, 1001, 0, 0,
-	0, 0, 0, 645, 0, 883, 995, 1481, 0, 0,
-	0, 0, 334, 1270, 0, 1477, 0, 1467, 1468, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 1281, 0, 0, 0, 0, 515, 928, 0, 924,
-	933, 1498, 0, 0, 0, 0, 930, 929, 0, 0,
-	0, 0, 0, 0, 0, 992, 989, 990, 0, 988,
-	0, 0, 0, 0, 0, 0, 0, 1281, 1513, 0,
-	0, 87, 1516, 0, 243, 1480, 0, 0, 0, 1303,
-	0, 1389, 0, 0, 1125, 1126, 1127, 999, 1002, 497,
-	0, 497, 1130, 1128, 299, 300, 267, 0, 87, 87,
-	0, 0, 1541, 0, 0, 497, 0, 1482, 1483, 1484,
-	1485, 1486, 1487, 1488, 87, 0, 87, 0, 0, 0,
-	0, 0, 87, 0, 0, 742, 0, 0, 0, 0,
-	0, 0, 556, 0, 0, 0, 753, 754, 755, 756,
-	757, 758, 759, 760, 0, 0, 0, 0, 1355, 0,
-	761, 762, 994, 926, 1026, 1357, 1281, 0, 0, 927,
-	0, 0, 0, 0, 556, 0, 0, 1366, 1367, 1368,
-	843, 0, 1371, 1591, 603, 0, 1592, 0, 0, 0,
-	1595, 0, 0, 993, 0, 1381, 1382, 1383, 0, 1386,
-	0, 0, 0, 0, 1516, 1281, 0, 0, 0, 0,
-	0, 0, 0, 1281, 1281, 0, 1627, 605, 0, 934,
-	0, 935, 0, 1124, 1634, 0, 1065, 1066, 1125, 1126,
-	1127, 0, 998, 0, 931, 0, 1130, 1128, 299, 300,
-	0, 0, 0, 0, 1545, 0, 1422, 0, 1000, 0,
-	0, 0, 0, 0, 334, 0, 0, 0, 610, 611,
-	612, 613, 614, 615, 616, 617, 618, 619, 0, 0,
-	87, 0, 0, 0, 1132, 1136, 0, 0, 1281, 606,
-	0, 0, 1667, 0, 0, 0, 0, 620, 604, 1190,
-	0, 0, 0, 0, 609, 0, 0, 0, 0, 0,
-	0, 1389, 0, 0, 0, 0, 0, 1133, 0, 1135,
-	1134, 0, 0, 0, 0, 1460, 0, 0, 229, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 347,
-	0, 1471, 1472, 1473, 0, 1516, 0, 0, 0, 0,
-	0, 47, 239, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 1501, 0, 1191, 0, 0, 0, 0, 1193,
-	1186, 1187, 0, 1194, 1189, 1188, 0, 621, 1196, 1192,
-	0, 0, 0, 497, 87, 0, 0, 0, 0, 1195,
-	0, 87, 650, 87, 0, 1185, 0, 0, 0, 978,
-	0, 980, 0, 224, 0, 1530, 1531, 1532, 1533, 226,
-	0, 0, 0, 0, 0, 1006, 232, 228, 1132, 1136,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 1255, 0, 47, 0, 0, 230, 0, 0, 234,
-	0, 1133, 0, 1135, 1134, 0, 0, 0, 1267, 1268,
-	1269, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 1585, 0, 0, 0, 0, 1590,
-	0, 0, 0, 0, 1297, 23, 24, 48, 26, 27,
-	0, 0, 0, 0, 0, 0, 0, 225, 0, 0,
-	1306, 0, 0, 1610, 42, 0, 0, 0, 28, 0,
-	0, 0, 0, 0, 87, 0, 0, 0, 0, 1632,
-	0, 87, 0, 87, 0, 0, 87, 37, 0, 87,
-	0, 50, 0, 751, 0, 227, 0, 235, 236, 237,
-	238, 242, 0, 0, 0, 0, 241, 240, 0, 0,
-	0, 0, 0, 0, 87, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 87, 0, 0, 0, 0, 0, 0,
-	0, 0, 751, 334, 0, 0, 0, 0, 0, 0,
-	0, 30, 31, 33, 32, 35, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 1683, 0, 0,
-	0, 0, 1374, 0, 0, 36, 43, 44, 0, 0,
-	45, 46, 34, 0, 267, 0, 0, 0, 0, 267,
-	267, 0, 0, 844, 844, 267, 0, 1700, 1701, 844,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 38, 39, 0, 40, 41, 0,
-	0, 0, 0, 1205, 0, 0, 0, 0, 0, 267,
-	267, 267, 267, 0, 87, 0, 844, 87, 87, 87,
-	87, 87, 0, 0, 0, 0, 0, 0, 0, 877,
-	0, 0, 87, 0, 0, 0, 650, 0, 0, 0,
-	0, 87, 87, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 1255, 0,
-	0, 1466, 0, 0, 0, 0, 0, 0, 49, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 1500,
-	0, 87, 0, 87, 0, 0, 0, 0, 87, 0,
-	87, 0, 0, 87, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 703, 1525, 751, 0,
+	529, 528, 555, 1111, 1101, 1653, 463, 347, 1652, 1044,
+	1651, 1043, 327, 1601, 529, 528, 266, 530, 347, 347,
+	347, 347, 347, 347, 347, 347, 800, 797, 529, 528,
+	469, 530, 347, 347, 1597, 1182, 1178, 1033, 1480, 1183,
+	1180, 1179, 1505, 1434, 74, 530, 482, 483, 484, 1599,
+	1015, 1482, 780, 1016, 1649, 1184, 1433, 982, 1302, 987,
+	50, 1177, 533, 801, 1004, 347, 1005, 1163, 1600, 1006,
+	802, 919, 510, 1029, 1030, 1031, 914, 1065, 913, 1028,
+	915, 916, 1161, 1141, 353, 917, 920, 89, 529, 528,
+	1086, 1462, 1088, 1023, 1024, 1025, 1650, 1022, 1424, 1429,
+	1352, 471, 1141, 353, 474, 530, 829, 823, 1155, 824,
+	521, 1118, 21, 1549, 353, 1291, 843, 843, 904, 1481,
+	1054, 1290, 843, 1574, 1700, 353, 1289, 1087, 1470, 1689,
+	510, 1096, 1399, 1682, 89, 1078, 1399, 1661, 1399, 1660,
+	1117, 1399, 1646, 1574, 1645, 1037, 333, 1642, 1641, 1569,
+	998, 1483, 1484, 1485, 1486, 1487, 1488, 1489, 1110, 843,
+	1094, 1052, 1089, 997, 1634, 510, 1399, 1631, 255, 1132,
+	1470, 1579, 1399, 1570, 1568, 1142, 1143, 353, 1145, 1146,
+	1147, 1105, 1106, 1108, 1470, 1503, 1160, 978, 347, 826,
+	1002, 749, 1169, 1166, 1470, 510, 1470, 1471, 1512, 996,
+	1148, 347, 1150, 1151, 1152, 1153, 748, 353, 556, 733,
+	89, 89, 731, 979, 488, 981, 1399, 1398, 89, 1272,
+	510, 1156, 1385, 510, 1329, 1328, 1162, 353, 481, 1007,
+	1323, 1324, 656, 1174, 292, 291, 294, 295, 296, 297,
+	1323, 1322, 1218, 293, 298, 1173, 1175, 463, 993, 990,
+	991, 1511, 989, 1038, 510, 630, 510, 973, 835, 510,
+	1575, 347, 1574, 347, 1242, 672, 671, 353, 353, 514,
+	518, 1506, 657, 1252, 655, 50, 1426, 347, 1478, 1417,
+	1000, 1003, 23, 1313, 1220, 1257, 536, 1255, 1219, 54,
+	1225, 1069, 1274, 1070, 1239, 1238, 353, 1251, 353, 353,
+	1069, 347, 1222, 1223, 797, 1246, 1216, 23, 1465, 1070,
+	1050, 904, 629, 904, 1047, 1240, 1241, 1260, 1243, 1244,
+	580, 1261, 886, 1262, 655, 835, 1279, 1038, 50, 591,
+	1063, 1381, 1292, 1064, 630, 23, 630, 630, 863, 1273,
+	1214, 1416, 1278, 1332, 863, 995, 1327, 1095, 1038, 891,
+	1069, 1038, 1049, 50, 257, 658, 1046, 1295, 1132, 1303,
+	1297, 1436, 1435, 730, 772, 89, 353, 1693, 1659, 1636,
+	1572, 1571, 1563, 89, 1562, 1316, 994, 1524, 353, 1504,
+	1449, 50, 635, 638, 639, 640, 636, 353, 637, 641,
+	1314, 1315, 943, 1317, 1318, 1319, 971, 1312, 1311, 89,
+	50, 1309, 1299, 1266, 777, 353, 1164, 1165, 784, 966,
+	1123, 1339, 1098, 1085, 353, 999, 959, 89, 1074, 1075,
+	1354, 1343, 958, 65, 1544, 1437, 1251, 1172, 1077, 1218,
+	1345, 1001, 347, 746, 734, 507, 873, 871, 1080, 1079,
+	870, 874, 872, 1103, 1348, 1304, 875, 1351, 639, 640,
+	1126, 1127, 1128, 869, 1113, 261, 262, 1355, 1131, 1129,
+	299, 300, 834, 836, 1667, 1637, 942, 353, 1212, 353,
+	353, 353, 89, 353, 1362, 1011, 333, 1665, 852, 353,
+	524, 1392, 1393, 1394, 1021, 1020, 512, 1330, 1206, 1380,
+	1357, 1149, 670, 522, 904, 1338, 1388, 513, 489, 1301,
+	353, 1379, 774, 775, 980, 1412, 347, 1096, 1397, 1407,
+	1450, 1395, 1414, 745, 1447, 1411, 635, 638, 639, 640,
+	636, 1347, 637, 641, 1300, 1171, 1074, 1075, 878, 974,
+	643, 258, 259, 353, 353, 524, 347, 1132, 1418, 1019,
+	1442, 353, 1443, 1444, 1445, 786, 787, 1018, 1169, 904,
+	1446, 353, 1335, 1428, 1441, 1430, 347, 1286, 252, 1657,
+	1438, 1530, 1439, 253, 1427, 54, 1529, 1453, 1070, 984,
+	985, 986, 1285, 1284, 1560, 526, 1561, 1538, 347, 1114,
+	767, 56, 1522, 7, 1523, 6, 353, 353, 1521, 5,
+	58, 1454, 1176, 843, 1340, 654, 1259, 1085, 580, 843,
+	353, 840, 841, 1466, 1255, 51, 1, 1519, 1464, 1567,
+	353, 1492, 1120, 1565, 67, 1626, 1496, 1573, 1491, 1305,
+	1334, 1475, 1191, 1170, 1185, 347, 1498, 347, 1282, 1490,
+	1133, 1137, 1500, 977, 1167, 992, 353, 353, 89, 1456,
+	1457, 353, 1458, 1459, 1460, 1508, 1580, 1594, 1477, 911,
+	353, 901, 461, 64, 1550, 912, 910, 908, 673, 937,
+	1139, 940, 1525, 1134, 679, 1136, 1135, 1513, 677, 678,
+	675, 353, 681, 674, 231, 340, 1509, 642, 1510, 666,
+	1539, 527, 897, 1545, 1199, 1198, 1540, 1192, 1255, 988,
+	1207, 763, 1194, 1187, 1188, 1331, 1195, 1190, 1189, 1008,
+	505, 1197, 1193, 303, 47, 233, 564, 1344, 1017, 1090,
+	1035, 346, 1196, 1622, 1036, 1258, 1346, 516, 1186, 1528,
+	1452, 1040, 1041, 1042, 1053, 353, 590, 848, 278, 788,
+	1051, 1577, 290, 287, 1349, 1057, 289, 288, 1058, 1059,
+	1060, 1061, 353, 347, 1585, 353, 779, 1062, 1590, 353,
+	537, 47, 268, 1595, 332, 626, 1578, 634, 632, 256,
+	1515, 631, 1076, 353, 353, 334, 1609, 1072, 331, 1215,
+	1376, 1535, 353, 353, 783, 353, 1602, 1603, 1604, 1605,
+	1606, 25, 55, 353, 1607, 1608, 1012, 1013, 1630, 518,
+	1632, 263, 19, 1480, 18, 1610, 1390, 17, 1390, 1390,
+	1390, 20, 1396, 1624, 1625, 16, 1482, 15, 347, 14,
+	29, 13, 12, 863, 11, 10, 1643, 1644, 9, 8,
+	4, 254, 22, 2, 0, 0, 0, 1658, 0, 1390,
+	0, 0, 0, 0, 0, 0, 0, 353, 0, 1663,
+	0, 353, 1664, 0, 0, 0, 0, 0, 1669, 1671,
+	0, 0, 1039, 0, 0, 0, 0, 0, 89, 0,
+	353, 1676, 347, 347, 1679, 1678, 0, 1056, 1666, 0,
+	1448, 89, 1677, 1686, 1481, 0, 0, 0, 1688, 0,
+	1451, 1690, 0, 0, 0, 0, 0, 0, 353, 0,
+	0, 0, 0, 0, 353, 0, 0, 1697, 0, 0,
+	0, 0, 0, 1694, 0, 0, 1483, 1484, 1485, 1486,
+	1487, 1488, 1489, 0, 0, 1468, 1469, 0, 0, 0,
+	0, 1224, 0, 0, 1034, 0, 0, 0, 0, 1282,
+	0, 497, 497, 497, 497, 0, 497, 0, 0, 1499,
+	0, 0, 0, 497, 544, 543, 553, 554, 546, 547,
+	548, 549, 550, 551, 552, 545, 0, 0, 555, 0,
+	47, 0, 0, 0, 1698, 1282, 1514, 0, 1271, 0,
+	1517, 0, 0, 0, 0, 565, 0, 0, 567, 1390,
+	544, 543, 553, 554, 546, 547, 548, 549, 550, 551,
+	552, 545, 0, 1685, 555, 0, 0, 0, 0, 0,
+	1542, 0, 0, 0, 0, 577, 0, 581, 582, 583,
+	584, 585, 586, 587, 588, 589, 0, 592, 594, 594,
+	594, 594, 594, 594, 594, 594, 0, 622, 623, 624,
+	625, 0, 0, 1546, 1125, 0, 0, 0, 645, 1126,
+	1127, 1128, 0, 0, 0, 0, 0, 1131, 1129, 299,
+	300, 0, 0, 0, 1282, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 843, 0,
+	0, 1592, 1248, 0, 1593, 0, 0, 0, 1596, 0,
+	0, 0, 0, 0, 0, 0, 0, 1263, 1264, 0,
+	0, 1265, 1517, 1282, 1267, 0, 0, 515, 0, 0,
+	0, 1282, 1282, 1356, 1628, 0, 0, 0, 0, 0,
+	1358, 0, 1635, 0, 0, 0, 0, 0, 0, 0,
+	0, 1227, 1367, 1368, 1369, 0, 0, 1372, 0, 0,
+	0, 0, 87, 0, 0, 243, 0, 0, 0, 0,
+	1382, 1383, 1384, 229, 1387, 0, 0, 0, 0, 944,
+	945, 947, 948, 949, 1229, 950, 951, 267, 0, 87,
+	87, 0, 0, 0, 556, 0, 1282, 239, 0, 0,
+	1668, 0, 960, 961, 962, 87, 963, 87, 964, 0,
+	0, 497, 0, 87, 0, 0, 0, 0, 0, 1390,
+	0, 1423, 497, 497, 497, 497, 497, 497, 497, 497,
+	556, 0, 0, 0, 0, 0, 497, 497, 0, 0,
+	1231, 0, 0, 603, 1236, 0, 1230, 347, 224, 1133,
+	1137, 1228, 0, 1517, 226, 0, 1353, 1234, 0, 0,
+	0, 232, 228, 0, 0, 0, 0, 0, 0, 0,
+	1232, 1233, 0, 0, 0, 0, 605, 0, 0, 0,
+	0, 0, 1134, 0, 1136, 1135, 0, 0, 1235, 1237,
+	1461, 230, 0, 0, 234, 0, 1378, 0, 0, 0,
+	0, 47, 0, 580, 0, 0, 1472, 1473, 1474, 0,
+	0, 0, 0, 0, 0, 581, 0, 610, 611, 612,
+	613, 614, 615, 616, 617, 618, 619, 1502, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 606, 0,
+	0, 0, 0, 0, 0, 1413, 620, 604, 0, 0,
+	0, 87, 225, 609, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 334, 334, 334, 334, 334, 703,
+	1531, 1532, 1533, 1534, 0, 0, 0, 0, 0, 645,
+	0, 883, 0, 0, 0, 0, 0, 0, 334, 0,
+	227, 0, 235, 236, 237, 238, 242, 0, 0, 0,
+	0, 241, 240, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 621, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 1144, 0, 0, 688, 0, 0, 1586,
+	0, 0, 0, 0, 1591, 87, 0, 0, 0, 0,
+	0, 0, 87, 650, 87, 497, 0, 497, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 1611, 704,
+	0, 497, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 1633, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	610, 611, 612, 613, 614, 615, 616, 617, 618, 619,
+	1027, 720, 721, 0, 722, 723, 724, 726, 725, 705,
+	706, 707, 711, 709, 708, 710, 682, 684, 1564, 620,
+	683, 689, 685, 686, 687, 701, 690, 691, 692, 693,
+	694, 695, 696, 697, 698, 699, 700, 702, 712, 713,
+	714, 715, 716, 717, 718, 719, 1584, 580, 0, 0,
+	0, 0, 1684, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 1066, 1067, 0, 87, 0, 0, 0, 0,
+	0, 0, 87, 0, 87, 0, 0, 87, 0, 0,
+	87, 0, 1701, 1702, 751, 0, 0, 0, 0, 0,
+	334, 0, 1629, 0, 0, 0, 0, 0, 0, 621,
+	0, 1308, 1310, 0, 0, 87, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 87, 0, 0, 23, 24, 48,
+	26, 27, 0, 751, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 42, 0, 0, 0,
+	28, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 37,
+	0, 0, 0, 50, 0, 267, 0, 0, 47, 1680,
+	267, 267, 0, 0, 844, 844, 267, 0, 0, 0,
+	844, 0, 0, 0, 1359, 1360, 0, 1361, 0, 0,
+	0, 1363, 0, 1365, 0, 0, 0, 0, 0, 0,
+	497, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	267, 267, 267, 267, 0, 87, 0, 844, 87, 87,
+	87, 87, 87, 30, 31, 33, 32, 35, 0, 0,
+	877, 0, 0, 87, 0, 0, 0, 650, 0, 1400,
+	1401, 0, 87, 87, 0, 0, 0, 36, 43, 44,
+	0, 0, 45, 46, 34, 0, 0, 0, 1256, 0,
+	47, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 1268, 1269, 1270, 0, 0,
+	0, 0, 0, 0, 0, 0, 38, 39, 0, 40,
+	41, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 1298, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 87, 0, 87, 0, 0, 1307, 0, 87,
+	0, 87, 0, 0, 87, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 751,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 267, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	49, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	334, 0, 0, 0, 0, 0, 0, 0, 0, 267,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 267, 0, 0, 0, 1375,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	267, 0, 1255, 0, 47, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 87, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 267, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 688, 267, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 704, 0, 0, 0,
-	0, 0, 0, 87, 0, 0, 0, 0, 0, 0,
+	0, 1119, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	1639, 0, 0, 0, 0, 0, 0, 610, 611, 612,
-	613, 614, 615, 616, 617, 618, 619, 0, 720, 721,
-	1118, 722, 723, 724, 726, 725, 705, 706, 707, 711,
-	709, 708, 710, 682, 684, 0, 620, 683, 689, 685,
-	686, 687, 701, 690, 691, 692, 693, 694, 695, 696,
-	697, 698, 699, 700, 702, 712, 713, 714, 715, 716,
-	717, 718, 719, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 1209, 1210, 0, 1694, 0,
-	0, 0, 0, 87, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 267, 0, 0, 621, 0, 0, 0,
-	0, 0, 0, 0, 267, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 751, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 844,
-	0, 0, 0, 0, 0, 844, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 1256, 0, 0, 1467, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 1210, 1211, 0,
+	0, 0, 0, 0, 0, 87, 1501, 0, 0, 0,
+	0, 0, 0, 0, 0, 267, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 267, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 751, 0, 0, 0,
+	0, 0, 0, 0, 1526, 0, 0, 0, 0, 0,
+	0, 844, 0, 0, 0, 0, 0, 844, 0, 1256,
+	0, 47, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
@@ -1092,57 +1095,88 @@ var yyAct = [...]int{
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	87, 0, 0, 0, 0, 0, 0, 0, 87, 0,
+	0, 0, 87, 0, 0, 0, 0, 0, 0, 0,
+	87, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 87, 1640, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 87, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 87, 0, 0, 0, 0, 0, 449, 439,
-	0, 408, 451, 381, 397, 459, 399, 400, 430, 365,
-	416, 154, 394, 92, 384, 358, 391, 359, 382, 410,
-	116, 380, 441, 419, 130, 457, 133, 424, 0, 176,
-	142, 0, 0, 412, 443, 414, 436, 407, 431, 372,
-	423, 452, 395, 427, 453, 0, 0, 650, 352, 0,
-	905, 906, 0, 0, 0, 0, 0, 105, 0, 426,
-	448, 393, 460, 429, 357, 425, 0, 363, 366, 458,
-	446, 388, 389, 1096, 0, 0, 0, 0, 0, 0,
-	411, 415, 433, 404, 0, 0, 0, 0, 0, 0,
-	0, 0, 385, 0, 422, 0, 0, 0, 369, 364,
-	0, 409, 0, 0, 0, 371, 0, 386, 434, 0,
-	354, 438, 444, 406, 203, 447, 403, 402, 161, 0,
-	108, 0, 182, 120, 396, 131, 432, 450, 413, 442,
-	383, 392, 110, 390, 168, 155, 194, 421, 156, 166,
-	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
-	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
-	219, 220, 221, 222, 362, 355, 387, 437, 93, 183,
-	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
-	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
-	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
-	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
-	191, 141, 138, 87, 97, 189, 139, 137, 129, 0,
-	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
-	150, 123, 0, 0, 360, 0, 177, 196, 214, 215,
-	361, 379, 445, 206, 207, 208, 209, 0, 0, 0,
-	147, 103, 124, 173, 128, 135, 164, 212, 428, 169,
-	107, 195, 175, 375, 378, 373, 374, 417, 418, 454,
-	455, 456, 435, 370, 0, 376, 377, 0, 440, 125,
-	420, 91, 99, 132, 210, 211, 0, 163, 118, 197,
-	398, 356, 401, 0, 0, 0, 0, 0, 0, 0,
-	367, 368, 170, 405, 0, 104, 0, 0, 0, 0,
-	0, 0, 0, 0, 844, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 449, 439, 0, 408, 451,
+	449, 439, 0, 408, 451, 381, 397, 459, 399, 400,
+	430, 365, 416, 154, 394, 92, 384, 358, 391, 359,
+	382, 410, 116, 380, 441, 419, 130, 457, 133, 424,
+	0, 176, 142, 0, 0, 412, 443, 414, 436, 407,
+	431, 372, 423, 452, 395, 427, 453, 0, 0, 650,
+	352, 0, 905, 906, 0, 0, 0, 0, 0, 105,
+	0, 426, 448, 393, 460, 429, 357, 425, 0, 363,
+	366, 458, 446, 388, 389, 1695, 0, 0, 0, 0,
+	0, 0, 411, 415, 433, 404, 0, 0, 0, 0,
+	0, 0, 0, 0, 385, 0, 422, 0, 0, 0,
+	369, 364, 0, 409, 0, 0, 0, 371, 0, 386,
+	434, 0, 354, 438, 444, 406, 203, 447, 403, 402,
+	161, 0, 108, 0, 182, 120, 396, 131, 432, 450,
+	413, 442, 383, 392, 110, 390, 168, 155, 194, 421,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 362, 355, 387, 437,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 87, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 360, 0, 177, 196,
+	214, 215, 361, 379, 445, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	428, 169, 107, 195, 175, 375, 378, 373, 374, 417,
+	418, 454, 455, 456, 435, 370, 0, 376, 377, 0,
+	440, 125, 420, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 398, 356, 401, 0, 0, 0, 0, 0,
+	0, 0, 367, 368, 170, 405, 0, 104, 0, 0,
+	0, 0, 0, 0, 0, 0, 844, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 449, 439, 0,
+	408, 451, 381, 397, 459, 399, 400, 430, 365, 416,
+	154, 394, 92, 384, 358, 391, 359, 382, 410, 116,
+	380, 441, 419, 130, 457, 133, 424, 0, 176, 142,
+	0, 0, 412, 443, 414, 436, 407, 431, 372, 423,
+	452, 395, 427, 453, 0, 0, 0, 352, 0, 905,
+	906, 0, 0, 0, 0, 0, 105, 0, 426, 448,
+	393, 460, 429, 357, 425, 0, 363, 366, 458, 446,
+	388, 389, 1097, 0, 0, 0, 0, 0, 0, 411,
+	415, 433, 404, 0, 0, 0, 0, 0, 0, 0,
+	0, 385, 0, 422, 0, 0, 0, 369, 364, 0,
+	409, 0, 0, 0, 371, 1675, 386, 434, 0, 354,
+	438, 444, 406, 203, 447, 403, 402, 161, 87, 108,
+	0, 182, 120, 396, 131, 432, 450, 413, 442, 383,
+	392, 110, 390, 168, 155, 194, 421, 156, 166, 134,
+	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
+	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
+	220, 221, 222, 362, 355, 387, 437, 93, 183, 192,
+	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
+	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
+	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
+	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
+	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
+	123, 0, 0, 360, 0, 177, 196, 214, 215, 361,
+	379, 445, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 428, 169, 107,
+	195, 175, 375, 378, 373, 374, 417, 418, 454, 455,
+	456, 435, 370, 0, 376, 377, 0, 440, 125, 420,
+	91, 99, 132, 210, 211, 0, 163, 118, 197, 398,
+	356, 401, 0, 0, 0, 0, 0, 0, 0, 367,
+	368, 170, 405, 0, 104, 449, 439, 0, 408, 451,
 	381, 397, 459, 399, 400, 430, 365, 416, 154, 394,
 	92, 384, 358, 391, 359, 382, 410, 116, 380, 441,
 	419, 130, 457, 133, 424, 0, 176, 142, 0, 0,
 	412, 443, 414, 436, 407, 431, 372, 423, 452, 395,
-	427, 453, 0, 0, 0, 352, 0, 905, 906, 0,
+	427, 453, 0, 0, 0, 352, 0, 0, 0, 0,
 	0, 0, 0, 0, 105, 0, 426, 448, 393, 460,
 	429, 357, 425, 0, 363, 366, 458, 446, 388, 389,
 	0, 0, 0, 0, 0, 0, 0, 411, 415, 433,
-	404, 0, 0, 0, 0, 0, 0, 0, 0, 385,
+	404, 0, 0, 0, 0, 0, 0, 1217, 0, 385,
 	0, 422, 0, 0, 0, 369, 364, 0, 409, 0,
-	0, 0, 371, 1674, 386, 434, 0, 354, 438, 444,
-	406, 203, 447, 403, 402, 161, 87, 108, 0, 182,
+	0, 0, 371, 0, 386, 434, 0, 354, 438, 444,
+	406, 203, 447, 403, 402, 161, 0, 108, 0, 182,
 	120, 396, 131, 432, 450, 413, 442, 383, 392, 110,
 	390, 168, 155, 194, 421, 156, 166, 134, 186, 162,
 	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
@@ -1166,11 +1200,11 @@ var yyAct = [...]int{
 	358, 391, 359, 382, 410, 116, 380, 441, 419, 130,
 	457, 133, 424, 0, 176, 142, 0, 0, 412, 443,
 	414, 436, 407, 431, 372, 423, 452, 395, 427, 453,
-	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
+	50, 0, 0, 352, 0, 0, 0, 0, 0, 0,
 	0, 0, 105, 0, 426, 448, 393, 460, 429, 357,
 	425, 0, 363, 366, 458, 446, 388, 389, 0, 0,
 	0, 0, 0, 0, 0, 411, 415, 433, 404, 0,
-	0, 0, 0, 0, 0, 1216, 0, 385, 0, 422,
+	0, 0, 0, 0, 0, 0, 0, 385, 0, 422,
 	0, 0, 0, 369, 364, 0, 409, 0, 0, 0,
 	371, 0, 386, 434, 0, 354, 438, 444, 406, 203,
 	447, 403, 402, 161, 0, 108, 0, 182, 120, 396,
@@ -1196,12 +1230,12 @@ var yyAct = [...]int{
 	400, 430, 365, 416, 154, 394, 92, 384, 358, 391,
 	359, 382, 410, 116, 380, 441, 419, 130, 457, 133,
 	424, 0, 176, 142, 0, 0, 412, 443, 414, 436,
-	407, 431, 372, 423, 452, 395, 427, 453, 50, 0,
-	0, 352, 0, 0, 0, 0, 0, 0, 0, 0,
+	407, 431, 372, 423, 452, 395, 427, 453, 0, 0,
+	0, 272, 0, 0, 0, 0, 0, 0, 0, 0,
 	105, 0, 426, 448, 393, 460, 429, 357, 425, 0,
 	363, 366, 458, 446, 388, 389, 0, 0, 0, 0,
 	0, 0, 0, 411, 415, 433, 404, 0, 0, 0,
-	0, 0, 0, 0, 0, 385, 0, 422, 0, 0,
+	0, 0, 0, 794, 0, 385, 0, 422, 0, 0,
 	0, 369, 364, 0, 409, 0, 0, 0, 371, 0,
 	386, 434, 0, 354, 438, 444, 406, 203, 447, 403,
 	402, 161, 0, 108, 0, 182, 120, 396, 131, 432,
@@ -1227,12 +1261,12 @@ var yyAct = [...]int{
 	365, 416, 154, 394, 92, 384, 358, 391, 359, 382,
 	410, 116, 380, 441, 419, 130, 457, 133, 424, 0,
 	176, 142, 0, 0, 412, 443, 414, 436, 407, 431,
-	372, 423, 452, 395, 427, 453, 0, 0, 0, 272,
+	372, 423, 452, 395, 427, 453, 0, 0, 0, 352,
 	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
 	426, 448, 393, 460, 429, 357, 425, 0, 363, 366,
 	458, 446, 388, 389, 0, 0, 0, 0, 0, 0,
 	0, 411, 415, 433, 404, 0, 0, 0, 0, 0,
-	0, 794, 0, 385, 0, 422, 0, 0, 0, 369,
+	0, 0, 0, 385, 0, 422, 0, 0, 0, 369,
 	364, 0, 409, 0, 0, 0, 371, 0, 386, 434,
 	0, 354, 438, 444, 406, 203, 447, 403, 402, 161,
 	0, 108, 0, 182, 120, 396, 131, 432, 450, 413,
@@ -1258,7 +1292,7 @@ var yyAct = [...]int{
 	154, 394, 92, 384, 358, 391, 359, 382, 410, 116,
 	380, 441, 419, 130, 457, 133, 424, 0, 176, 142,
 	0, 0, 412, 443, 414, 436, 407, 431, 372, 423,
-	452, 395, 427, 453, 0, 0, 0, 352, 0, 0,
+	452, 395, 427, 453, 0, 0, 0, 272, 0, 0,
 	0, 0, 0, 0, 0, 0, 105, 0, 426, 448,
 	393, 460, 429, 357, 425, 0, 363, 366, 458, 446,
 	388, 389, 0, 0, 0, 0, 0, 0, 0, 411,
@@ -1289,7 +1323,7 @@ var yyAct = [...]int{
 	92, 384, 358, 391, 359, 382, 410, 116, 380, 441,
 	419, 130, 457, 133, 424, 0, 176, 142, 0, 0,
 	412, 443, 414, 436, 407, 431, 372, 423, 452, 395,
-	427, 453, 0, 0, 0, 272, 0, 0, 0, 0,
+	427, 453, 0, 0, 0, 352, 0, 0, 0, 0,
 	0, 0, 0, 0, 105, 0, 426, 448, 393, 460,
 	429, 357, 425, 0, 363, 366, 458, 446, 388, 389,
 	0, 0, 0, 0, 0, 0, 0, 411, 415, 433,
@@ -1305,11 +1339,11 @@ var yyAct = [...]int{
 	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
 	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
 	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
-	102, 199, 148, 153, 151, 198, 185, 191, 141, 138,
+	350, 199, 148, 153, 151, 198, 185, 191, 141, 138,
 	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
 	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
 	0, 360, 0, 177, 196, 214, 215, 361, 379, 445,
-	206, 207, 208, 209, 0, 0, 0, 147, 103, 124,
+	206, 207, 208, 209, 0, 0, 0, 351, 349, 124,
 	173, 128, 135, 164, 212, 428, 169, 107, 195, 175,
 	375, 378, 373, 374, 417, 418, 454, 455, 456, 435,
 	370, 0, 376, 377, 0, 440, 125, 420, 91, 99,
@@ -1320,7 +1354,7 @@ var yyAct = [...]int{
 	358, 391, 359, 382, 410, 116, 380, 441, 419, 130,
 	457, 133, 424, 0, 176, 142, 0, 0, 412, 443,
 	414, 436, 407, 431, 372, 423, 452, 395, 427, 453,
-	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 88, 0, 0, 0, 0, 0, 0,
 	0, 0, 105, 0, 426, 448, 393, 460, 429, 357,
 	425, 0, 363, 366, 458, 446, 388, 389, 0, 0,
 	0, 0, 0, 0, 0, 411, 415, 433, 404, 0,
@@ -1335,12 +1369,12 @@ var yyAct = [...]int{
 	355, 387, 437, 93, 183, 192, 106, 172, 96, 190,
 	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
 	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 350, 199,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
 	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
 	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
 	122, 145, 144, 146, 0, 150, 123, 0, 0, 360,
 	0, 177, 196, 214, 215, 361, 379, 445, 206, 207,
-	208, 209, 0, 0, 0, 351, 349, 124, 173, 128,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
 	135, 164, 212, 428, 169, 107, 195, 175, 375, 378,
 	373, 374, 417, 418, 454, 455, 456, 435, 370, 0,
 	376, 377, 0, 440, 125, 420, 91, 99, 132, 210,
@@ -1351,7 +1385,7 @@ var yyAct = [...]int{
 	359, 382, 410, 116, 380, 441, 419, 130, 457, 133,
 	424, 0, 176, 142, 0, 0, 412, 443, 414, 436,
 	407, 431, 372, 423, 452, 395, 427, 453, 0, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 352, 0, 0, 0, 0, 0, 0, 0, 0,
 	105, 0, 426, 448, 393, 460, 429, 357, 425, 0,
 	363, 366, 458, 446, 388, 389, 0, 0, 0, 0,
 	0, 0, 0, 411, 415, 433, 404, 0, 0, 0,
@@ -1363,15 +1397,15 @@ var yyAct = [...]int{
 	421, 156, 166, 134, 186, 162, 193, 204, 205, 184,
 	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
 	216, 217, 218, 219, 220, 221, 222, 362, 355, 387,
-	437, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	437, 93, 183, 660, 106, 172, 96, 190, 179, 181,
 	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
 	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	112, 178, 101, 200, 201, 98, 350, 199, 148, 153,
 	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
 	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
 	144, 146, 0, 150, 123, 0, 0, 360, 0, 177,
 	196, 214, 215, 361, 379, 445, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	0, 0, 0, 351, 349, 124, 173, 128, 135, 164,
 	212, 428, 169, 107, 195, 175, 375, 378, 373, 374,
 	417, 418, 454, 455, 456, 435, 370, 0, 376, 377,
 	0, 440, 125, 420, 91, 99, 132, 210, 211, 0,
@@ -1394,7 +1428,7 @@ var yyAct = [...]int{
 	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
 	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
 	218, 219, 220, 221, 222, 362, 355, 387, 437, 93,
-	183, 660, 106, 172, 96, 190, 179, 181, 140, 126,
+	183, 341, 106, 172, 96, 190, 179, 181, 140, 126,
 	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
 	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
 	101, 200, 201, 98, 350, 199, 148, 153, 151, 198,
@@ -1402,48 +1436,132 @@ var yyAct = [...]int{
 	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
 	0, 150, 123, 0, 0, 360, 0, 177, 196, 214,
 	215, 361, 379, 445, 206, 207, 208, 209, 0, 0,
-	0, 351, 349, 124, 173, 128, 135, 164, 212, 428,
+	0, 351, 349, 344, 343, 128, 135, 164, 212, 428,
 	169, 107, 195, 175, 375, 378, 373, 374, 417, 418,
 	454, 455, 456, 435, 370, 0, 376, 377, 0, 440,
 	125, 420, 91, 99, 132, 210, 211, 0, 163, 118,
 	197, 398, 356, 401, 0, 0, 0, 0, 0, 0,
-	0, 367, 368, 170, 405, 0, 104, 449, 439, 0,
-	408, 451, 381, 397, 459, 399, 400, 430, 365, 416,
-	154, 394, 92, 384, 358, 391, 359, 382, 410, 116,
-	380, 441, 419, 130, 457, 133, 424, 0, 176, 142,
-	0, 0, 412, 443, 414, 436, 407, 431, 372, 423,
-	452, 395, 427, 453, 0, 0, 0, 352, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 426, 448,
-	393, 460, 429, 357, 425, 0, 363, 366, 458, 446,
-	388, 389, 0, 0, 0, 0, 0, 0, 0, 411,
-	415, 433, 404, 0, 0, 0, 0, 0, 0, 0,
-	0, 385, 0, 422, 0, 0, 0, 369, 364, 0,
-	409, 0, 0, 0, 371, 0, 386, 434, 0, 354,
-	438, 444, 406, 203, 447, 403, 402, 161, 0, 108,
-	0, 182, 120, 396, 131, 432, 450, 413, 442, 383,
-	392, 110, 390, 168, 155, 194, 421, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 362, 355, 387, 437, 93, 183, 341,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 350, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 360, 0, 177, 196, 214, 215, 361,
-	379, 445, 206, 207, 208, 209, 0, 0, 0, 351,
-	349, 344, 343, 128, 135, 164, 212, 428, 169, 107,
-	195, 175, 375, 378, 373, 374, 417, 418, 454, 455,
-	456, 435, 370, 0, 376, 377, 0, 440, 125, 420,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 398,
-	356, 401, 0, 0, 0, 0, 0, 0, 0, 367,
-	368, 170, 405, 154, 104, 92, 0, 0, 274, 0,
-	0, 0, 116, 271, 0, 0, 130, 313, 133, 0,
+	0, 367, 368, 170, 405, 154, 104, 92, 0, 0,
+	274, 0, 0, 0, 116, 271, 0, 0, 130, 313,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 304,
+	305, 0, 0, 0, 0, 0, 0, 895, 0, 50,
+	0, 0, 272, 292, 291, 294, 295, 296, 297, 0,
+	0, 105, 293, 298, 299, 300, 896, 0, 0, 269,
+	285, 0, 312, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 282, 283, 0, 0, 0, 0, 325, 0,
+	284, 0, 0, 280, 281, 286, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 323, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 0, 169, 107, 195, 175, 314, 324, 320,
+	321, 318, 319, 317, 316, 315, 326, 306, 307, 308,
+	309, 311, 0, 125, 310, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 0, 0, 0, 0, 0, 0,
+	0, 0, 154, 0, 92, 831, 170, 274, 322, 104,
+	0, 116, 271, 0, 0, 130, 313, 133, 0, 0,
+	176, 142, 0, 0, 0, 0, 304, 305, 0, 0,
+	0, 0, 0, 0, 0, 0, 50, 0, 0, 272,
+	292, 291, 294, 295, 296, 297, 0, 0, 105, 293,
+	298, 299, 300, 0, 0, 0, 269, 285, 0, 312,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 282,
+	283, 265, 0, 0, 0, 325, 0, 284, 0, 0,
+	280, 281, 286, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 203, 0, 0, 323, 161,
+	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
+	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
+	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
+	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
+	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
+	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
+	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
+	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
+	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
+	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
+	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
+	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
+	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
+	169, 107, 195, 175, 314, 324, 320, 321, 318, 319,
+	317, 316, 315, 326, 306, 307, 308, 309, 311, 0,
+	125, 310, 91, 99, 132, 210, 211, 0, 163, 118,
+	197, 0, 0, 0, 0, 0, 0, 0, 0, 154,
+	0, 92, 0, 170, 274, 322, 104, 0, 116, 271,
+	0, 0, 130, 313, 133, 0, 0, 176, 142, 0,
+	0, 0, 0, 304, 305, 0, 0, 0, 0, 0,
+	0, 0, 0, 50, 0, 510, 272, 292, 291, 294,
+	295, 296, 297, 0, 0, 105, 293, 298, 299, 300,
+	0, 0, 0, 269, 285, 0, 312, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 282, 283, 0, 0,
+	0, 0, 325, 0, 284, 0, 0, 280, 281, 286,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 203, 0, 0, 323, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 314, 324, 320, 321, 318, 319, 317, 316, 315,
+	326, 306, 307, 308, 309, 311, 0, 125, 310, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 0,
+	0, 0, 0, 0, 0, 0, 154, 0, 92, 0,
+	170, 274, 322, 104, 0, 116, 271, 0, 0, 130,
+	313, 133, 0, 0, 176, 142, 0, 0, 0, 0,
+	304, 305, 0, 0, 0, 0, 0, 0, 0, 0,
+	50, 0, 0, 272, 292, 291, 294, 295, 296, 297,
+	0, 0, 105, 293, 298, 299, 300, 0, 0, 0,
+	269, 285, 0, 312, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 282, 283, 265, 0, 0, 0, 325,
+	0, 284, 0, 0, 280, 281, 286, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 323, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 314, 324,
+	320, 321, 318, 319, 317, 316, 315, 326, 306, 307,
+	308, 309, 311, 0, 125, 310, 91, 99, 132, 210,
+	211, 23, 163, 118, 197, 0, 0, 0, 0, 0,
+	0, 0, 0, 154, 0, 92, 0, 170, 274, 322,
+	104, 0, 116, 271, 0, 0, 130, 313, 133, 0,
 	0, 176, 142, 0, 0, 0, 0, 304, 305, 0,
-	0, 0, 0, 0, 0, 895, 0, 50, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 50, 0, 0,
 	272, 292, 291, 294, 295, 296, 297, 0, 0, 105,
-	293, 298, 299, 300, 896, 0, 0, 269, 285, 0,
+	293, 298, 299, 300, 0, 0, 0, 269, 285, 0,
 	312, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	282, 283, 0, 0, 0, 0, 325, 0, 284, 0,
@@ -1467,14 +1585,14 @@ var yyAct = [...]int{
 	319, 317, 316, 315, 326, 306, 307, 308, 309, 311,
 	0, 125, 310, 91, 99, 132, 210, 211, 0, 163,
 	118, 197, 0, 0, 0, 0, 0, 0, 0, 0,
-	154, 0, 92, 831, 170, 274, 322, 104, 0, 116,
+	154, 0, 92, 0, 170, 274, 322, 104, 0, 116,
 	271, 0, 0, 130, 313, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 304, 305, 0, 0, 0, 0,
 	0, 0, 0, 0, 50, 0, 0, 272, 292, 291,
 	294, 295, 296, 297, 0, 0, 105, 293, 298, 299,
 	300, 0, 0, 0, 269, 285, 0, 312, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 282, 283, 265,
+	0, 0, 0, 0, 0, 0, 0, 282, 283, 0,
 	0, 0, 0, 325, 0, 284, 0, 0, 280, 281,
 	286, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 203, 0, 0, 323, 161, 0, 108,
@@ -1495,782 +1613,667 @@ var yyAct = [...]int{
 	195, 175, 314, 324, 320, 321, 318, 319, 317, 316,
 	315, 326, 306, 307, 308, 309, 311, 0, 125, 310,
 	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	0, 0, 0, 0, 0, 0, 0, 154, 0, 92,
-	0, 170, 274, 322, 104, 0, 116, 271, 0, 0,
-	130, 313, 133, 0, 0, 176, 142, 0, 0, 0,
-	0, 304, 305, 0, 0, 0, 0, 0, 0, 0,
-	0, 50, 0, 510, 272, 292, 291, 294, 295, 296,
-	297, 0, 0, 105, 293, 298, 299, 300, 0, 0,
-	0, 269, 285, 0, 312, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 282, 283, 0, 0, 0, 0,
-	325, 0, 284, 0, 0, 280, 281, 286, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 323, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 314,
-	324, 320, 321, 318, 319, 317, 316, 315, 326, 306,
-	307, 308, 309, 311, 0, 125, 310, 91, 99, 132,
-	210, 211, 0, 163, 118, 197, 0, 0, 0, 0,
-	0, 0, 0, 0, 154, 0, 92, 0, 170, 274,
-	322, 104, 0, 116, 271, 0, 0, 130, 313, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 304, 305,
-	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
-	0, 272, 292, 291, 294, 295, 296, 297, 0, 0,
-	105, 293, 298, 299, 300, 0, 0, 0, 269, 285,
-	0, 312, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 282, 283, 265, 0, 0, 0, 325, 0, 284,
-	0, 0, 280, 281, 286, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	323, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 314, 324, 320, 321,
-	318, 319, 317, 316, 315, 326, 306, 307, 308, 309,
-	311, 0, 125, 310, 91, 99, 132, 210, 211, 23,
-	163, 118, 197, 0, 0, 0, 0, 0, 0, 0,
-	0, 154, 0, 92, 0, 170, 274, 322, 104, 0,
-	116, 271, 0, 0, 130, 313, 133, 0, 0, 176,
-	142, 0, 0, 0, 0, 304, 305, 0, 0, 0,
-	0, 0, 0, 0, 0, 50, 0, 0, 272, 292,
-	291, 294, 295, 296, 297, 0, 0, 105, 293, 298,
-	299, 300, 0, 0, 0, 269, 285, 0, 312, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 282, 283,
-	0, 0, 0, 0, 325, 0, 284, 0, 0, 280,
-	281, 286, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 203, 0, 0, 323, 161, 0,
-	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
-	0, 0, 110, 0, 168, 155, 194, 0, 156, 166,
-	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
-	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
-	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
-	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
-	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
-	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
-	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
-	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
-	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
-	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
-	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
-	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
-	107, 195, 175, 314, 324, 320, 321, 318, 319, 317,
-	316, 315, 326, 306, 307, 308, 309, 311, 0, 125,
-	310, 91, 99, 132, 210, 211, 0, 163, 118, 197,
-	0, 0, 0, 0, 0, 0, 0, 0, 154, 0,
-	92, 0, 170, 274, 322, 104, 0, 116, 271, 0,
-	0, 130, 313, 133, 0, 0, 176, 142, 0, 0,
-	0, 0, 304, 305, 0, 0, 0, 0, 0, 0,
-	0, 0, 50, 0, 0, 272, 292, 291, 294, 295,
-	296, 297, 0, 0, 105, 293, 298, 299, 300, 0,
-	0, 0, 269, 285, 0, 312, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 282, 283, 0, 0, 0,
-	0, 325, 0, 284, 0, 0, 280, 281, 286, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 203, 0, 0, 323, 161, 0, 108, 0, 182,
-	120, 0, 131, 0, 0, 0, 0, 0, 0, 110,
-	0, 168, 155, 194, 0, 156, 166, 134, 186, 162,
-	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
-	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
-	222, 0, 0, 0, 0, 93, 183, 192, 106, 172,
-	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
-	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
-	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
-	102, 199, 148, 153, 151, 198, 185, 191, 141, 138,
-	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
-	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
-	0, 0, 0, 177, 196, 214, 215, 0, 0, 0,
-	206, 207, 208, 209, 0, 0, 0, 147, 103, 124,
-	173, 128, 135, 164, 212, 0, 169, 107, 195, 175,
-	314, 324, 320, 321, 318, 319, 317, 316, 315, 326,
-	306, 307, 308, 309, 311, 0, 125, 310, 91, 99,
-	132, 210, 211, 0, 163, 118, 197, 0, 0, 0,
-	0, 154, 0, 92, 0, 0, 0, 0, 0, 170,
-	116, 322, 104, 0, 130, 313, 133, 0, 0, 176,
-	142, 0, 0, 0, 0, 304, 305, 0, 0, 0,
-	0, 0, 0, 0, 0, 50, 0, 0, 272, 292,
-	291, 294, 295, 296, 297, 0, 0, 105, 293, 298,
-	299, 300, 0, 0, 0, 0, 285, 0, 312, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 282, 283,
-	0, 0, 0, 0, 325, 0, 284, 0, 0, 280,
-	281, 286, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 203, 0, 0, 323, 161, 0,
-	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
-	0, 0, 110, 0, 168, 155, 194, 1698, 156, 166,
-	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
-	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
-	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
-	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
-	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
-	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
-	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
-	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
-	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
-	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
-	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
-	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
-	107, 195, 175, 314, 324, 320, 321, 318, 319, 317,
-	316, 315, 326, 306, 307, 308, 309, 311, 0, 125,
-	310, 91, 99, 132, 210, 211, 0, 163, 118, 197,
-	0, 0, 0, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 170, 116, 322, 104, 0, 130, 313, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 304, 305,
-	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
-	0, 272, 292, 291, 294, 295, 296, 297, 0, 0,
-	105, 293, 298, 299, 300, 0, 0, 0, 0, 285,
-	0, 312, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 282, 283, 0, 0, 0, 0, 325, 0, 284,
-	0, 0, 280, 281, 286, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	323, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 314, 324, 320, 321,
-	318, 319, 317, 316, 315, 326, 306, 307, 308, 309,
-	311, 0, 125, 310, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 0, 0, 0, 154, 0, 92,
-	0, 0, 0, 0, 0, 170, 116, 322, 104, 0,
-	130, 0, 133, 0, 0, 176, 142, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 352, 0, 0, 0, 0, 0,
-	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	544, 543, 553, 554, 546, 547, 548, 549, 550, 551,
-	552, 545, 0, 0, 555, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
-	210, 211, 0, 163, 118, 197, 0, 0, 0, 0,
-	154, 0, 92, 0, 532, 0, 0, 0, 170, 116,
-	556, 104, 0, 130, 0, 133, 0, 0, 176, 142,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 352, 0, 534,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
-	0, 0, 529, 528, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 530,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 649, 0, 0, 0, 0, 116,
-	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
+	0, 0, 0, 154, 0, 92, 0, 0, 0, 0,
+	0, 170, 116, 322, 104, 0, 130, 313, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 304, 305, 0,
+	0, 0, 0, 0, 0, 0, 0, 50, 0, 0,
+	272, 292, 291, 294, 295, 296, 297, 0, 0, 105,
+	293, 298, 299, 300, 0, 0, 0, 0, 285, 0,
+	312, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 88, 0, 651,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	282, 283, 0, 0, 0, 0, 325, 0, 284, 0,
+	0, 280, 281, 286, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 323,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 1699,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 314, 324, 320, 321, 318,
+	319, 317, 316, 315, 326, 306, 307, 308, 309, 311,
+	0, 125, 310, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 0, 0, 0, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 170, 116, 322, 104, 0, 130,
+	313, 133, 0, 0, 176, 142, 0, 0, 0, 0,
+	304, 305, 0, 0, 0, 0, 0, 0, 0, 0,
+	50, 0, 0, 272, 292, 291, 294, 295, 296, 297,
+	0, 0, 105, 293, 298, 299, 300, 0, 0, 0,
+	0, 285, 0, 312, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 282, 283, 0, 0, 0, 0, 325,
+	0, 284, 0, 0, 280, 281, 286, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 323, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 314, 324,
+	320, 321, 318, 319, 317, 316, 315, 326, 306, 307,
+	308, 309, 311, 0, 125, 310, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 0, 0, 0, 154,
+	0, 92, 0, 0, 0, 0, 0, 170, 116, 322,
+	104, 0, 130, 0, 133, 0, 0, 176, 142, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 352, 0, 0, 0,
+	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 544, 543, 553, 554, 546, 547, 548, 549,
+	550, 551, 552, 545, 0, 0, 555, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 0,
+	0, 0, 154, 0, 92, 0, 532, 0, 0, 0,
+	170, 116, 556, 104, 0, 130, 0, 133, 0, 0,
+	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 352,
+	0, 534, 0, 0, 0, 0, 0, 0, 105, 0,
+	0, 0, 0, 0, 529, 528, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 530, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 203, 0, 0, 0, 161,
+	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
+	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
+	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
+	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
+	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
+	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
+	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
+	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
+	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
+	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
+	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
+	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
+	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
+	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	125, 0, 91, 99, 132, 210, 211, 0, 163, 118,
+	197, 0, 154, 0, 92, 0, 649, 0, 0, 0,
+	0, 116, 0, 170, 0, 130, 104, 133, 0, 0,
+	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 88,
+	0, 651, 0, 0, 0, 0, 0, 0, 105, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 23, 163, 118, 197, 0,
-	0, 0, 0, 0, 0, 0, 0, 154, 0, 92,
-	0, 170, 0, 0, 104, 0, 116, 0, 0, 0,
-	130, 0, 133, 0, 0, 176, 142, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 50, 0, 0, 352, 0, 0, 0, 0, 0,
-	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 203, 0, 0, 0, 161,
+	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
+	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
+	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
+	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
+	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
+	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
+	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
+	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
+	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
+	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
+	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
+	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
+	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
+	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
+	125, 0, 91, 99, 132, 210, 211, 23, 163, 118,
+	197, 0, 0, 0, 0, 0, 0, 0, 0, 154,
+	0, 92, 0, 170, 0, 0, 104, 0, 116, 0,
+	0, 0, 130, 0, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
-	210, 211, 23, 163, 118, 197, 0, 0, 0, 0,
-	0, 0, 0, 0, 154, 0, 92, 0, 170, 0,
-	0, 104, 0, 116, 0, 0, 0, 130, 0, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 50, 0, 0, 352, 0, 0, 0,
+	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
+	99, 132, 210, 211, 23, 163, 118, 197, 0, 0,
+	0, 0, 0, 0, 0, 0, 154, 0, 92, 0,
+	170, 0, 0, 104, 0, 116, 0, 0, 0, 130,
+	0, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 352, 0, 0, 781, 0, 0, 782, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	50, 0, 0, 88, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 669, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 352, 0, 668, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 352, 0, 0, 781, 0, 0, 782,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 649, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 0, 116, 669, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 651, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 352, 0, 668, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 647, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	649, 0, 0, 0, 0, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 352, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 88, 0, 651, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 1390, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 647, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 1391, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 1673, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 352, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 88, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 1282, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 1674, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 1283, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 651, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	50, 0, 0, 88, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 352, 0, 534, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 88, 0, 651, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 352, 0, 534, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 741, 169, 107, 195, 175, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 627, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 88, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 336, 0, 0, 0, 0, 0, 0,
-	154, 0, 92, 0, 0, 170, 0, 0, 104, 116,
-	0, 0, 0, 130, 0, 133, 0, 0, 176, 142,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 741, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 88, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 627, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 88, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
-	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 336, 0, 0, 0, 0,
+	0, 0, 154, 0, 92, 0, 0, 170, 0, 0,
+	104, 116, 0, 0, 0, 130, 0, 133, 0, 0,
+	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 88,
+	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 88, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 203, 0, 0, 0, 161,
+	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
+	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
+	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
+	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
+	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
+	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
+	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
+	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
+	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
+	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
+	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
+	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
+	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
+	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	125, 0, 91, 99, 132, 210, 211, 0, 163, 118,
+	197, 0, 154, 0, 92, 0, 0, 0, 0, 0,
+	0, 116, 0, 170, 0, 130, 104, 133, 0, 0,
+	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 88,
+	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 85, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
-	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 352, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 85, 0, 203, 0, 0, 0, 161,
+	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
+	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
+	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
+	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
+	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
+	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
+	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
+	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
+	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
+	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
+	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
+	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
+	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
+	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	125, 0, 91, 99, 132, 210, 211, 0, 163, 118,
+	197, 0, 154, 0, 92, 0, 0, 0, 0, 0,
+	0, 116, 0, 170, 0, 130, 104, 133, 0, 0,
+	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 352,
+	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
-	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 88, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 203, 0, 0, 0, 161,
+	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
+	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
+	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
+	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
+	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
+	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
+	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
+	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
+	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
+	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
+	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
+	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
+	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
+	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	125, 0, 91, 99, 132, 210, 211, 0, 163, 118,
+	197, 0, 154, 0, 92, 0, 0, 0, 0, 0,
+	0, 116, 0, 170, 0, 130, 104, 133, 0, 0,
+	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 88,
+	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
-	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 272, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 203, 0, 0, 0, 161,
+	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
+	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
+	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
+	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
+	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
+	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
+	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
+	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
+	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
+	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
+	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
+	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
+	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
+	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	125, 0, 91, 99, 132, 210, 211, 0, 163, 118,
+	197, 0, 154, 0, 92, 0, 0, 0, 0, 0,
+	0, 116, 0, 170, 0, 130, 104, 133, 0, 0,
+	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 272,
+	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 170, 0, 0, 104,
+	0, 0, 0, 0, 0, 203, 0, 0, 0, 161,
+	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
+	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
+	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
+	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
+	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
+	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
+	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
+	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
+	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
+	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
+	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
+	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
+	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
+	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	125, 0, 91, 99, 132, 210, 211, 0, 163, 118,
+	197, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 170, 0, 0, 104,
 }
 
 var yyPact = [...]int{
-	2299, -1000, -204, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	2421, -1000, -206, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 1272, 1315, -1000, -1000, -1000, -1000, -1000, -1000, 1123,
-	529, 307, 346, 195, 13542, 340, 2107, 14102, -1000, 92,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 1070, -1000, -1000,
-	-1000, -1000, -1000, 1259, 1270, 1080, 1241, 1186, -1000, 7336,
-	262, 11856, 13262, 6182, -1000, 880, -187, 296, 13822, 260,
-	260, 13822, 13822, 260, -1000, -103, 315, 14102, -1000, 14102,
-	241, 874, 241, 241, 241, 14102, -1000, 396, -1000, -1000,
+	-1000, 1350, 1376, -1000, -1000, -1000, -1000, -1000, -1000, 1171,
+	437, 401, 444, 336, 13574, 430, 1912, 14134, -1000, 156,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 1129, -1000, -1000,
+	-1000, -1000, -1000, 1341, 1347, 1148, 1311, 1217, -1000, 7368,
+	402, 11888, 13294, 6214, -1000, 992, -155, 408, 13854, 396,
+	396, 13854, 13854, 396, -1000, -72, 429, 14134, -1000, 14134,
+	392, 973, 392, 392, 392, 14134, -1000, 480, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
@@ -2284,20 +2287,20 @@ var yyPact = [...]int{
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 14102, 863, 1215, 231, 4026, 4026, 4026,
-	4026, 151, 4026, -65, 1135, -1000, -1000, -1000, -1000, 4026,
+	-1000, -1000, -1000, 14134, 959, 1269, 417, 4058, 4058, 4058,
+	4058, 316, 4058, -17, 1185, -1000, -1000, -1000, -1000, 4058,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	781, 1217, 7910, 7910, 1272, -1000, 1070, -1000, -1000, -1000,
-	1208, -1000, -1000, 563, 1291, -1000, 9042, 392, -1000, 7910,
-	115, 962, -1000, -1000, 962, -1000, -1000, 375, -1000, -1000,
-	8476, 8476, 8476, 8476, 8476, 8476, 8476, -1000, -1000, -1000,
+	876, 1267, 7942, 7942, 1350, -1000, 1129, -1000, -1000, -1000,
+	1259, -1000, -1000, 686, 1364, -1000, 9074, 477, -1000, 7942,
+	46, 1023, -1000, -1000, 1023, -1000, -1000, 468, -1000, -1000,
+	8508, 8508, 8508, 8508, 8508, 8508, 8508, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 962, -1000, 7623, 962, 962, 962, 962, 962, 962,
-	962, 962, 7910, 962, 962, 962, 962, 962, 962, 962,
-	962, 962, 1898, 962, 962, 962, 962, 12976, 971, 1165,
-	-1000, -1000, -1000, 1238, 9896, 10736, 14102, 939, -1000, 1026,
-	5874, -79, -1000, -1000, -1000, 502, 10456, -1000, -1000, -1000,
-	1210, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 1023, -1000, 7655, 1023, 1023, 1023, 1023, 1023, 1023,
+	1023, 1023, 7942, 1023, 1023, 1023, 1023, 1023, 1023, 1023,
+	1023, 1023, 1907, 1023, 1023, 1023, 1023, 13008, 1083, 1142,
+	-1000, -1000, -1000, 1308, 9928, 10768, 14134, 1021, -1000, 1102,
+	5906, -29, -1000, -1000, -1000, 606, 10488, -1000, -1000, -1000,
+	1263, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
@@ -2308,156 +2311,156 @@ var yyPact = [...]int{
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 926, -1000, 2607, 338, -1000, -1000, 14102, 1048, 861,
-	519, 857, 1134, 250, 14102, -1000, 12696, 4026, 303, 14102,
-	1230, 1133, 14102, 846, 828, -1000, 5566, -1000, 4026, 4026,
-	4026, 4026, 4026, 4026, 4026, 4026, -1000, -1000, -1000, -1000,
-	-1000, -1000, 4026, 4026, -1000, -22, -1000, 14102, -1000, -1000,
-	-1000, -1000, 1310, 419, 799, 391, 1030, -1000, 721, 1259,
-	781, 1186, 10176, 1148, -1000, -1000, 14102, -1000, 7910, 7910,
-	639, -1000, 12416, -1000, -1000, 4334, 431, 8476, 648, 505,
-	8476, 8476, 8476, 8476, 8476, 8476, 8476, 8476, 8476, 8476,
-	8476, 8476, 8476, 8476, 8476, 723, 1898, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 796, -1000, 1070, 1003, 1003,
-	11, 11, 11, 11, 11, 11, 8759, 6762, 781, 924,
-	454, 7623, 7336, 7336, 7910, 7910, 14382, 14382, 7336, 1243,
-	445, 454, 14382, -1000, 781, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, 30, -1000, -1000, -1000, -1000, -1000,
+	-1000, 1012, -1000, 2110, 423, -1000, -1000, 14134, 1112, 957,
+	638, 954, 1184, 294, 14134, -1000, 12728, 4058, 404, 14134,
+	1290, 1183, 14134, 951, 936, -1000, 5598, -1000, 4058, 4058,
+	4058, 4058, 4058, 4058, 4058, 4058, -1000, -1000, -1000, -1000,
+	-1000, -1000, 4058, 4058, -1000, 23, -1000, 14134, -1000, -1000,
+	-1000, -1000, 1371, 505, 629, 476, 1111, -1000, 744, 1341,
+	876, 1217, 10208, 1167, -1000, -1000, 14134, -1000, 7942, 7942,
+	694, -1000, 12448, -1000, -1000, 4366, 517, 8508, 808, 551,
+	8508, 8508, 8508, 8508, 8508, 8508, 8508, 8508, 8508, 8508,
+	8508, 8508, 8508, 8508, 8508, 852, 1907, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, 934, -1000, 1129, 978, 978,
+	19, 19, 19, 19, 19, 19, 8791, 6794, 876, 1005,
+	670, 7655, 7368, 7368, 7942, 7942, 14414, 14414, 7368, 1314,
+	622, 670, 14414, -1000, 876, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, 79, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 7336, 7336, 7336, 7336, 178, 14102, -1000, 14382,
-	11856, 11856, 11856, 11856, 11856, -1000, 1155, 1153, -1000, 1175,
-	1152, 1159, 14102, -1000, 921, 9896, 313, 962, -1000, 12136,
-	-1000, -1000, 178, 1031, 11856, 14102, -1000, -1000, 5258, 1026,
-	-79, 998, -1000, -74, -46, 6475, 401, -1000, -1000, -1000,
-	-1000, 3410, 711, 1742, -129, -9, -1000, -1000, -1000, -1000,
-	1068, -1000, 1068, 216, 1068, 1068, 1068, -1000, 1068, 1068,
-	26, 26, 26, 26, 26, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 1121, 1115, -1000, 1068, 1068, 1068, -1000, 1068,
+	-1000, -1000, 7368, 7368, 7368, 7368, 252, 14134, -1000, 14414,
+	11888, 11888, 11888, 11888, 11888, -1000, 1213, 1200, -1000, 1197,
+	1196, 1206, 14134, -1000, 1002, 9928, 469, 1023, -1000, 12168,
+	-1000, -1000, 252, 1071, 11888, 14134, -1000, -1000, 5290, 1102,
+	-29, 1096, -1000, -35, -11, 6507, 488, -1000, -1000, -1000,
+	-1000, 3115, 751, 238, -128, 36, -1000, -1000, -1000, -1000,
+	1140, -1000, 1140, 254, 1140, 1140, 1140, -1000, 1140, 1140,
+	72, 72, 72, 72, 72, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, 1170, 1164, -1000, 1140, 1140, 1140, -1000, 1140,
+	-1000, 1140, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	1157, 280, 1157, 1144, 1144, -1000, -1000, 13854, 1307, -111,
+	932, 4058, 1281, 4058, 14134, 1361, 14134, -1000, -1000, -1000,
+	935, 14134, -1000, 14134, -1000, -1000, 14134, 4058, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	1099, 225, 1099, 1071, 1071, -1000, -1000, 13822, 1236, -127,
-	788, 4026, 1222, 4026, 14102, 1286, 14102, -1000, -1000, -1000,
-	1772, 14102, -1000, 14102, -1000, -1000, 14102, 4026, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 499, -1000, -1000, -1000, -1000, 1191, 7910,
-	7910, 4950, 7910, -1000, -1000, -1000, 1217, -1000, 1243, 1266,
-	-1000, 1201, 1200, 7336, -1000, -1000, 431, 441, -1000, -1000,
-	688, -1000, -1000, -1000, -1000, 390, 962, -1000, 355, -1000,
-	-1000, -1000, -1000, 648, 8476, 8476, 8476, 1651, 355, 1683,
-	55, 515, 11, 173, 173, 6, 6, 6, 6, 6,
-	161, 161, -1000, -1000, -1000, -1000, 781, -1000, -1000, -1000,
-	781, 7336, 999, -1000, -1000, 7910, -1000, 781, 919, 919,
-	728, 583, 1022, -1000, 388, 1020, 919, 7336, 526, -1000,
-	7910, 781, -1000, -1000, 919, 781, 919, 919, 1042, 962,
-	-1000, 1017, -1000, 501, 1165, 1119, 1132, 961, -1000, -1000,
-	-1000, -1000, 1151, -1000, 1131, -1000, -1000, -1000, -1000, -1000,
-	317, 311, 309, 13822, -1000, 1280, 11856, 979, -1000, -1000,
-	998, -79, -86, -1000, -1000, -1000, -1000, 454, -1000, -1000,
-	755, 992, 3083, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 1114, 636, 13822, 211, 207, 409, 378, 752, -1000,
-	-1000, -1000, 579, -1000, 13822, 1303, -1000, -1000, 204, -1000,
-	203, 518, 744, 14102, 129, 1101, 1991, -1000, -209, -1000,
-	-13, -1000, -1000, 702, 26, 26, 1068, 26, 26, 26,
-	-1000, -1000, 401, 1209, 401, 401, 401, 401, 739, 739,
-	-130, -130, -1000, -1000, -1000, 700, 1099, -1000, -1000, -1000,
-	675, -1000, 1112, 1070, -1000, 4642, -1000, -1000, -1000, -1000,
-	-1000, 1235, 1130, -1000, -1000, -1000, 110, -1000, 751, 2054,
-	451, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 176, 350, -1000, 4026, -1000, 508, 14102, 14102,
-	1189, 454, 454, 379, -1000, -1000, 14102, -1000, -1000, -1000,
-	-1000, 1012, -1000, -1000, -1000, 3718, 7336, -1000, 1651, 355,
-	1047, -1000, 8476, 8476, -1000, -1000, 919, 7336, 454, -1000,
-	-1000, -1000, 705, 723, 705, 8476, 8476, 4950, 8476, 8476,
-	-120, 982, 506, -1000, 7910, 626, -1000, -1000, -1000, -1000,
-	-1000, 1129, 14382, 962, -1000, 9609, 13822, 1272, 14382, 7910,
-	7910, -1000, -1000, 7910, 1098, -1000, 7910, -1000, -1000, -1000,
-	962, 962, 962, 884, -1000, 1272, 979, -1000, -1000, -1000,
-	-77, -89, -1000, -1000, 3410, -1000, 3410, 11576, -1000, 1288,
-	1256, 214, 238, -1000, 750, 749, -1000, 747, -1000, -12,
-	-1000, -185, 86, -47, -1000, -1000, 962, -1000, 1083, 1234,
-	-1000, 1218, 667, -1000, 1857, -198, -1000, -1000, -1000, -1000,
-	-1000, -1000, 962, 1077, 1075, -1000, 1074, -1000, -1000, -1000,
-	927, 401, 401, 26, 401, 401, 401, -1000, 460, -1000,
-	-1000, -1000, -1000, 916, -1000, 908, -1000, 54, 40, -1000,
-	991, -1000, 892, 14102, 13822, -1000, 977, -1000, 496, 1255,
-	138, 14102, 1286, -1000, 205, -1000, 13822, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 13822, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 14102, -1000, -1000,
-	-1000, -1000, -1000, 13822, 229, -1000, -1000, 731, 7910, -1000,
-	-1000, -1000, 4642, -1000, 1280, 11856, -1000, -1000, 781, -1000,
-	8476, 355, 355, -1000, -1000, 781, 1068, 1068, -1000, 1068,
-	1071, -1000, -1000, 1068, 78, 1068, 68, 781, 781, 295,
-	766, -1000, 277, 150, 962, -114, -1000, 454, 7910, -1000,
-	1223, 914, 960, -1000, -1000, 7049, 781, 888, 370, 884,
-	1259, -1000, 454, 454, 454, 11016, 454, 11016, 11016, 11016,
-	9322, 13822, 1259, -1000, -1000, -1000, -1000, 3083, -1000, 879,
-	-1000, 1068, 1068, 314, 314, -191, 199, 197, -1000, -1000,
-	-1000, -1000, -187, -1000, -1000, 518, -1000, 7910, 11016, -173,
-	-1000, 974, 905, 244, -1000, 144, 781, -1000, 732, -1000,
-	703, 889, -1000, -1000, -1000, 401, -1000, -1000, -1000, -1000,
-	-1000, 26, 730, 26, -24, -25, 656, -1000, 654, 986,
-	1128, 4642, 3410, 292, 1353, -1000, -1000, 1246, 1233, 13822,
-	-1000, -1000, -1000, 1065, -1000, -1000, -1000, -1000, 1211, 13822,
-	-1000, -1000, 454, 1277, 968, -1000, 355, -1000, -1000, 210,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 8476,
-	8476, -1000, 8476, 8476, 8476, 781, 718, 454, 194, -1000,
-	962, -1000, -1000, 990, 13822, 13822, -1000, -1000, 873, -1000,
-	-1000, 869, 869, 869, 313, -1000, -1000, 1554, 11576, 1227,
-	-1000, 601, -1000, -1000, 521, 126, 592, -1000, 13822, -187,
-	-1000, 962, 587, 867, 1064, 651, -1000, 885, 29, -130,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 401, -1000, 401,
-	-1000, -1000, 870, 821, 11576, 13822, 14102, -1000, -1000, 13822,
-	-1000, -1000, -1000, -1000, -1000, 107, 184, 1062, 11016, 962,
-	232, 1275, 1265, -1000, -1000, 310, 310, 310, 310, 42,
-	-1000, -1000, 1300, -1000, 962, -1000, 1070, 367, -1000, 13822,
-	-1000, -1000, -1000, -1000, -1000, 1126, 1773, 120, -1000, 734,
-	494, 637, 488, 467, 462, 452, 450, 442, 439, -1000,
-	-1000, -1000, 1298, -1000, -1000, -1000, 1294, 1061, -1000, 1059,
-	7910, 130, -1000, -1000, 802, 795, -1000, -1000, -1000, -1000,
-	-1000, -1000, 856, 1056, 1049, 931, -1000, 105, 184, -1000,
-	-1000, -1000, -1000, 11576, 854, 175, 191, -1000, 7910, 7910,
-	-1000, -1000, -1000, -1000, 781, 127, -163, 14382, 960, 781,
-	13822, -1000, -1000, 13822, -1000, -134, 1773, 13822, -1000, 643,
-	-1000, -1000, 569, 631, 569, 569, 569, 569, 569, 314,
-	314, 13822, 11576, 587, -1000, -116, 1024, -1000, -1000, -193,
-	11576, 11576, -126, 13822, 7910, 184, -1000, 844, 1048, 841,
-	-1000, 13822, 1044, 454, 946, -1000, 1182, -123, -167, 941,
-	-1000, -1000, 962, 839, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, 518, 518, 820, 801,
-	-1000, -1000, -1000, 108, 710, 623, 618, 617, -19, -1000,
-	1263, 1280, 1041, 794, 780, -1000, -200, -1000, 454, -1000,
-	-1000, -127, -1000, 175, 1198, 11576, -1000, 1166, -1000, 13822,
-	-1000, 1773, -1000, -1000, 227, 1554, 594, -1000, 586, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, 11296, 1554, 11016, 1280,
-	1554, 7910, -1000, -1000, 152, 769, -128, 781, -1000, 14102,
-	1126, -1000, -1000, -1000, 365, 1126, 767, 1554, -1000, 454,
-	170, -1000, -165, -1000, 1035, -1000, 4642, -1000, -1000, -1000,
-	962, -168, 13822, -1000, 8193, -1000, 765, 310, 781, -1000,
-	-1000, -1000,
+	-1000, -1000, -1000, 616, -1000, -1000, -1000, -1000, 1239, 7942,
+	7942, 4982, 7942, -1000, -1000, -1000, 1267, -1000, 1314, 1328,
+	-1000, 1253, 1252, 7368, -1000, -1000, 517, 566, -1000, -1000,
+	827, -1000, -1000, -1000, -1000, 475, 1023, -1000, 1689, -1000,
+	-1000, -1000, -1000, 808, 8508, 8508, 8508, 697, 1689, 1653,
+	163, 347, 19, 400, 400, 12, 12, 12, 12, 12,
+	313, 313, -1000, -1000, -1000, -1000, 876, -1000, -1000, -1000,
+	876, 7368, 1098, -1000, -1000, 7942, -1000, 876, 1000, 1000,
+	758, 730, 1103, -1000, 474, 1099, 1000, 7368, 625, -1000,
+	7942, 876, -1000, -1000, 1000, 876, 1000, 1000, 1101, 1023,
+	-1000, 1097, -1000, 595, 1142, 1168, 1178, 1276, -1000, -1000,
+	-1000, -1000, 1199, -1000, 1198, -1000, -1000, -1000, -1000, -1000,
+	419, 414, 412, 13854, -1000, 1356, 11888, 1081, -1000, -1000,
+	1096, -29, 8, -1000, -1000, -1000, -1000, 670, -1000, -1000,
+	905, 1094, 3442, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 1160, 732, 13854, 329, 395, 433, 351, 903, -1000,
+	-1000, -1000, 737, -1000, 13854, 1370, -1000, -1000, 325, -1000,
+	323, 635, 854, 14134, 138, 1158, 1782, -1000, -209, -1000,
+	33, -1000, -1000, 825, 72, 72, 1140, 72, 72, 72,
+	-1000, -1000, 488, 1262, 488, 488, 488, 488, 851, 851,
+	-114, -114, -1000, -1000, -1000, -1000, 824, 1157, -1000, -1000,
+	-1000, 809, -1000, 1156, 1129, -1000, 4674, -1000, -1000, -1000,
+	-1000, -1000, 1303, 1177, -1000, -1000, -1000, 228, -1000, 710,
+	1367, 522, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, 230, 435, -1000, 4058, -1000, 633, 14134,
+	14134, 1231, 670, 670, 473, -1000, -1000, 14134, -1000, -1000,
+	-1000, -1000, 1095, -1000, -1000, -1000, 3750, 7368, -1000, 697,
+	1689, 198, -1000, 8508, 8508, -1000, -1000, 1000, 7368, 670,
+	-1000, -1000, -1000, 1815, 852, 1815, 8508, 8508, 4982, 8508,
+	8508, -89, 1074, 610, -1000, 7942, 642, -1000, -1000, -1000,
+	-1000, -1000, 1176, 14414, 1023, -1000, 9641, 13854, 1350, 14414,
+	7942, 7942, -1000, -1000, 7942, 1151, -1000, 7942, -1000, -1000,
+	-1000, 1023, 1023, 1023, 966, -1000, 1350, 1081, -1000, -1000,
+	-1000, -41, -42, -1000, -1000, 3115, -1000, 3115, 11608, -1000,
+	1363, 1338, 320, 359, -1000, 871, 866, -1000, 860, -1000,
+	69, -1000, -190, 84, 70, -1000, -1000, 1023, -1000, 1150,
+	1302, -1000, 1271, 800, -1000, 1193, -201, -1000, -1000, -1000,
+	-1000, -1000, -1000, 1023, 1149, 1146, -1000, 1145, -1000, -1000,
+	-1000, 1029, 488, 488, 72, 488, 488, 488, -1000, 548,
+	-1000, -1000, -1000, -1000, 987, -1000, 977, -1000, 125, 102,
+	-1000, 1093, -1000, 971, 14134, 13854, -1000, 1090, -1000, 593,
+	1333, 245, 14134, 1361, -1000, 393, -1000, 13854, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, 13854, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 14134, -1000,
+	-1000, -1000, -1000, -1000, 13854, 349, -1000, -1000, 843, 7942,
+	-1000, -1000, -1000, 4674, -1000, 1356, 11888, -1000, -1000, 876,
+	-1000, 8508, 1689, 1689, -1000, -1000, 876, 1140, 1140, -1000,
+	1140, 1144, -1000, -1000, 1140, 145, 1140, 141, 876, 876,
+	118, 290, -1000, 96, 220, 1023, -79, -1000, 670, 7942,
+	-1000, 1274, 1047, 1078, -1000, -1000, 7081, 876, 969, 472,
+	966, 1341, -1000, 670, 670, 670, 11048, 670, 11048, 11048,
+	11048, 9354, 13854, 1341, -1000, -1000, -1000, -1000, 3442, -1000,
+	963, -1000, 1140, 1140, 390, 390, -193, 318, 302, -1000,
+	-1000, -1000, -1000, -155, -1000, -1000, 635, -1000, 7942, 11048,
+	-176, -1000, 1088, 1025, 303, -1000, 164, 876, -1000, 844,
+	-1000, 725, 1022, -1000, -1000, -1000, 488, -1000, -1000, -1000,
+	-1000, -1000, 72, 842, 72, 30, 24, 798, -1000, 785,
+	1110, 1175, 4674, 3115, 397, 1334, -1000, -1000, 1331, 1292,
+	13854, -1000, -1000, -1000, 1128, -1000, -1000, -1000, -1000, 1284,
+	13854, -1000, -1000, 670, 1354, 1084, -1000, 1689, -1000, -1000,
+	271, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	8508, 8508, -1000, 8508, 8508, 8508, 876, 834, 670, 293,
+	-1000, 1023, -1000, -1000, 1076, 13854, 13854, -1000, -1000, 943,
+	-1000, -1000, 941, 941, 941, 469, -1000, -1000, 787, 11608,
+	1278, -1000, 714, -1000, -1000, 649, 180, 659, -1000, 13854,
+	-155, -1000, 1023, 818, 931, 1127, 784, -1000, 1017, 76,
+	-114, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 488, -1000,
+	488, -1000, -1000, 997, 944, 11608, 13854, 14134, -1000, -1000,
+	13854, -1000, -1000, -1000, -1000, -1000, 172, 227, 1125, 11048,
+	1023, 357, 1352, 1345, -1000, -1000, 150, 150, 150, 150,
+	68, -1000, -1000, 1368, -1000, 1023, -1000, 1129, 465, -1000,
+	13854, -1000, -1000, -1000, -1000, -1000, 1174, 1542, 123, -1000,
+	858, 591, 698, 586, 585, 583, 580, 568, 558, 528,
+	-1000, -1000, -1000, 1365, -1000, -1000, -1000, 1366, 1122, -1000,
+	1120, 7942, 191, -1000, -1000, 920, 895, -1000, -1000, -1000,
+	-1000, -1000, -1000, 919, 1119, 1118, 1009, -1000, 165, 227,
+	-1000, -1000, -1000, -1000, 11608, 917, 222, 285, -1000, 7942,
+	7942, -1000, -1000, -1000, -1000, 876, 174, -120, 14414, 1078,
+	876, 13854, -1000, -1000, 13854, -1000, -117, 1542, 13854, -1000,
+	776, -1000, -1000, 799, 755, 799, 799, 799, 799, 799,
+	390, 390, 13854, 11608, 818, -1000, -81, 129, -1000, -1000,
+	-195, 11608, 11608, -110, 13854, 7942, 227, -1000, 913, 1112,
+	911, -1000, 13854, 1117, 670, 1072, -1000, 1228, -108, -140,
+	1038, -1000, -1000, 1023, 894, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 635, 635, 890,
+	888, -1000, -1000, -1000, 126, 838, 752, 750, 747, -19,
+	-1000, 1343, 1356, 1116, 885, 883, -1000, -203, -1000, 670,
+	-1000, -1000, -111, -1000, 222, 1245, 11608, -1000, 1227, -1000,
+	13854, -1000, 1542, -1000, -1000, 339, 787, 700, -1000, 695,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 11328, 787, 11048,
+	1356, 787, 7942, -1000, -1000, 231, 879, -112, 876, -1000,
+	14134, 1174, -1000, -1000, -1000, 463, 1174, 875, 787, -1000,
+	670, 210, -1000, -138, -1000, 1115, -1000, 4674, -1000, -1000,
+	-1000, 1023, -162, 13854, -1000, 8225, -1000, 870, 150, 876,
+	-1000, -1000, -1000,
 }
 
 var yyPgo = [...]int{
-	0, 1580, 19, 816, 1579, 1578, 1573, 1355, 1336, 1330,
-	1565, 1561, 1558, 1556, 1554, 1553, 1552, 1550, 1549, 1545,
-	1542, 1540, 1539, 1538, 511, 1537, 1536, 1535, 88, 1533,
-	96, 1530, 1527, 52, 115, 53, 50, 54, 1526, 32,
-	119, 89, 1523, 60, 1521, 1520, 98, 1519, 85, 1517,
-	1516, 95, 1515, 1500, 27, 3, 1487, 31, 1485, 1484,
-	91, 7, 1483, 1480, 1479, 1478, 1476, 1475, 75, 13,
-	17, 25, 29, 1474, 84, 37, 1473, 66, 1472, 1471,
-	1469, 1467, 51, 1466, 77, 24, 45, 76, 1465, 14,
-	1464, 83, 43, 39, 9, 97, 82, 1461, 46, 90,
-	68, 1460, 1458, 627, 1456, 1455, 1454, 1453, 1452, 1451,
-	600, 597, 1450, 1448, 1447, 56, 0, 462, 10, 104,
-	1446, 58, 1445, 1866, 93, 81, 34, 1443, 55, 1477,
-	47, 1442, 1434, 57, 92, 1432, 105, 103, 1431, 1429,
-	1428, 1426, 1423, 87, 40, 70, 202, 1421, 1413, 1412,
-	21, 61, 42, 65, 79, 1411, 1408, 1407, 36, 1405,
-	16, 30, 2, 71, 1402, 1401, 1400, 1398, 41, 33,
-	1397, 26, 22, 18, 6, 4, 1396, 1395, 1393, 1,
-	1391, 28, 1390, 5, 1389, 8, 1388, 1384, 1383, 1379,
-	1375, 1374, 1372, 1371, 1368, 1367, 23, 12, 48, 49,
-	11, 59, 44, 1364, 15, 1357, 1351, 1187, 759, 1341,
-	1334, 1324, 1322, 123,
+	0, 1623, 18, 912, 1622, 1621, 1620, 1388, 1384, 1382,
+	1619, 1618, 1615, 1614, 1612, 1611, 1610, 1609, 1607, 1605,
+	1601, 1597, 1594, 1592, 652, 1591, 1582, 1581, 95, 1574,
+	104, 1571, 1570, 54, 113, 60, 51, 816, 1569, 40,
+	96, 85, 1568, 67, 1567, 1562, 98, 1561, 84, 1558,
+	1557, 122, 1555, 1554, 25, 4, 1552, 32, 1550, 1547,
+	99, 68, 1546, 1537, 1536, 1533, 1532, 1529, 75, 13,
+	14, 22, 26, 1528, 59, 74, 1527, 71, 1526, 1524,
+	1520, 1519, 52, 1517, 77, 17, 34, 76, 1515, 12,
+	1513, 92, 49, 36, 9, 97, 82, 1511, 53, 87,
+	70, 1509, 1508, 751, 1506, 1505, 1500, 1499, 1491, 1490,
+	763, 830, 1489, 1485, 1484, 55, 0, 329, 15, 103,
+	1481, 56, 1479, 1897, 93, 83, 39, 1477, 44, 281,
+	50, 1475, 1474, 48, 94, 1473, 101, 100, 1472, 1470,
+	1469, 1468, 1464, 1266, 45, 30, 47, 1461, 1460, 1459,
+	24, 58, 42, 61, 81, 1458, 1457, 1456, 41, 1455,
+	23, 16, 3, 65, 1454, 1453, 1452, 1451, 46, 28,
+	1449, 29, 31, 1, 2, 5, 1448, 1447, 1446, 7,
+	1435, 27, 1434, 6, 1433, 10, 1424, 1423, 1420, 1419,
+	1417, 1415, 1414, 1413, 1412, 1409, 21, 8, 43, 33,
+	20, 57, 37, 1407, 11, 1406, 1405, 1503, 683, 1395,
+	1394, 1392, 1390, 105,
 }
 
 var yyR1 = [...]int{
@@ -2584,7 +2587,7 @@ var yyR2 = [...]int{
 	3, 1, 3, 0, 2, 0, 3, 3, 2, 2,
 	2, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 2, 3, 2, 2, 2, 2, 1, 1,
-	1, 3, 3, 2, 1, 2, 1, 1, 1, 1,
+	1, 3, 3, 2, 1, 2, 1, 2, 1, 1,
 	4, 4, 4, 4, 4, 1, 5, 2, 2, 3,
 	3, 3, 3, 3, 1, 1, 1, 1, 1, 1,
 	1, 6, 6, 1, 1, 1, 1, 1, 1, 1,
@@ -2763,81 +2766,81 @@ var yyChk = [...]int{
 	134, 312, 64, 128, 297, 299, 28, -149, 314, 236,
 	-147, 244, -143, 52, -143, -143, 208, -143, -143, -143,
 	-143, -143, -145, 210, -145, -145, -145, -145, 52, 52,
-	-143, -143, -143, -143, -151, 52, 193, -151, -151, -152,
-	52, -152, -117, 22, -183, 291, -184, 55, -129, 23,
-	-129, -51, -202, 8, 9, 10, -51, -112, 117, 114,
-	115, -180, 113, 241, 210, 64, 28, 15, 280, 145,
-	296, 55, 146, -51, -51, -51, -129, -107, 11, 90,
-	36, -37, -37, -124, -84, -87, -102, 19, 11, 32,
-	32, -34, 66, 67, 68, 109, -207, -68, -61, -61,
-	-61, -33, 140, 71, -208, -208, -34, 53, -37, -208,
-	-208, -208, 53, 51, 22, 53, 11, 109, 53, 11,
-	-208, -34, -79, -77, 78, -37, -208, -208, -208, -208,
-	-208, -59, 29, 32, -2, -207, -207, -55, 53, 12,
-	80, -44, -43, 50, 51, -45, 50, -43, 40, 40,
-	120, 120, 120, -92, -117, -55, -39, -55, -100, -101,
-	266, 263, 269, 55, 53, -169, 80, 52, -197, 50,
-	72, -161, -117, 135, -163, -163, 55, -163, 55, 55,
-	66, 19, -117, 9, 135, 135, -197, 57, -123, -194,
-	298, 16, 52, -199, 52, 57, 58, 59, 66, -144,
-	65, -57, 237, 270, 273, 272, 238, 315, -148, 245,
-	58, -145, -145, -143, -145, -145, -145, -146, 29, -146,
-	-146, -146, -146, -153, 57, -153, -150, 291, 292, -150,
-	58, -151, 58, 50, 51, -2, -182, -181, -118, -187,
-	22, 50, -201, -128, -121, -211, 151, 126, 131, 130,
-	55, 125, 129, 145, -186, 151, 126, 127, 131, 130,
-	55, 120, 135, 125, 129, 145, 134, -113, -114, 122,
-	22, 120, 135, 145, 117, -129, -109, 88, 12, -123,
-	-123, 37, 109, -51, -38, 11, 97, -118, -35, -33,
-	71, -61, -61, -208, -36, -133, 106, 206, 139, 201,
-	195, 225, 226, 212, 243, 199, 244, -130, -133, -61,
-	-61, -118, -61, -61, 288, -82, 79, -37, 77, -93,
-	50, -94, -70, -72, -71, -207, -2, -88, -117, -92,
-	-82, -98, -37, -37, -37, 52, -37, -207, -207, -207,
-	-208, 53, -82, -55, 263, 267, 268, -168, -169, -172,
-	-171, -117, 135, 10, 9, 19, 131, 125, 55, 55,
-	55, -196, 134, 309, -198, 312, -144, -207, 52, 22,
-	28, 58, -199, 52, -189, 311, -207, -143, 52, -143,
-	52, 52, 54, -146, -146, -145, -146, -146, -146, 55,
-	106, 54, 53, 54, 199, 199, 53, 54, 53, -51,
-	-117, 53, 80, -188, 19, 159, 160, -51, -202, -210,
-	120, 135, -128, -117, -128, -117, -51, -128, -117, 127,
-	-158, 57, -37, -55, -39, -208, -61, -208, -143, -143,
-	-143, -152, -143, 186, -143, 186, -208, -208, -208, 53,
-	19, -208, 53, 19, -207, -32, 285, -37, 27, -93,
-	53, -208, -208, -208, 53, 109, -208, -86, -89, -117,
-	135, -89, -89, -89, -126, -117, -86, 54, 53, -143,
-	-143, -160, 155, 156, 29, 157, -160, 309, 135, 135,
-	-196, -197, -37, -89, 299, 53, 54, -199, 210, 200,
-	239, 216, -208, 54, 54, 54, -146, -145, 57, -145,
-	246, 246, 58, 58, 52, 51, 50, -181, -169, 122,
-	20, 6, 8, 9, 10, 19, 22, -117, 52, 26,
-	-117, -80, 13, -145, 55, -61, -61, -61, -61, -61,
-	-208, 57, 135, -72, 32, -2, -207, -117, -117, 53,
-	54, -208, -208, -208, -54, -174, -176, 291, -175, 51,
-	132, 64, 164, 165, 166, 167, 168, 169, 170, -171,
-	-85, -197, 50, 66, 158, -197, 50, -161, -117, -196,
-	-207, -208, 54, 52, 58, 54, 208, -150, -146, -146,
-	54, 54, -172, -117, -51, -162, -117, 173, -203, -204,
-	-7, -9, -8, 52, -89, -207, 125, -81, 14, 16,
-	-208, -208, -208, -208, -31, 90, 291, 9, -70, -2,
-	109, -117, -173, 50, -175, 291, 52, 293, 55, -164,
-	80, 57, 80, 80, 80, 80, 80, 80, 80, 9,
-	10, 52, 52, -37, -193, 157, -195, 54, 54, 54,
-	52, 52, -190, 53, 51, 174, -204, -172, 54, -178,
-	-179, 145, 135, -37, -69, -208, 289, 47, 294, -94,
-	-208, -117, -117, -177, -175, -117, 58, -200, 50, 69,
-	58, -200, -200, -200, -200, -200, -160, -160, -162, -172,
-	-208, 286, 54, 176, 301, 302, 144, 303, 157, 304,
-	305, -90, 310, -172, -172, -191, 291, -117, -37, -204,
-	54, -185, -208, 53, -117, 52, 37, 290, 295, -207,
-	54, 53, -197, -197, 54, 54, 291, 58, 16, 58,
-	58, 58, 58, 302, 144, 304, 16, -55, 52, 54,
-	54, 312, -183, -179, 32, -172, 37, -117, -175, 128,
-	-174, 58, 58, 306, -123, -174, -89, -55, -174, -37,
-	147, 54, 291, -208, -51, -173, 109, -173, 54, -174,
-	148, 294, 52, -118, -207, 295, -162, -61, 144, 54,
-	-208, -208,
+	-143, -143, -143, -143, -143, -151, 52, 193, -151, -151,
+	-152, 52, -152, -117, 22, -183, 291, -184, 55, -129,
+	23, -129, -51, -202, 8, 9, 10, -51, -112, 117,
+	114, 115, -180, 113, 241, 210, 64, 28, 15, 280,
+	145, 296, 55, 146, -51, -51, -51, -129, -107, 11,
+	90, 36, -37, -37, -124, -84, -87, -102, 19, 11,
+	32, 32, -34, 66, 67, 68, 109, -207, -68, -61,
+	-61, -61, -33, 140, 71, -208, -208, -34, 53, -37,
+	-208, -208, -208, 53, 51, 22, 53, 11, 109, 53,
+	11, -208, -34, -79, -77, 78, -37, -208, -208, -208,
+	-208, -208, -59, 29, 32, -2, -207, -207, -55, 53,
+	12, 80, -44, -43, 50, 51, -45, 50, -43, 40,
+	40, 120, 120, 120, -92, -117, -55, -39, -55, -100,
+	-101, 266, 263, 269, 55, 53, -169, 80, 52, -197,
+	50, 72, -161, -117, 135, -163, -163, 55, -163, 55,
+	55, 66, 19, -117, 9, 135, 135, -197, 57, -123,
+	-194, 298, 16, 52, -199, 52, 57, 58, 59, 66,
+	-144, 65, -57, 237, 270, 273, 272, 238, 315, -148,
+	245, 58, -145, -145, -143, -145, -145, -145, -146, 29,
+	-146, -146, -146, -146, -153, 57, -153, -150, 291, 292,
+	-150, 58, -151, 58, 50, 51, -2, -182, -181, -118,
+	-187, 22, 50, -201, -128, -121, -211, 151, 126, 131,
+	130, 55, 125, 129, 145, -186, 151, 126, 127, 131,
+	130, 55, 120, 135, 125, 129, 145, 134, -113, -114,
+	122, 22, 120, 135, 145, 117, -129, -109, 88, 12,
+	-123, -123, 37, 109, -51, -38, 11, 97, -118, -35,
+	-33, 71, -61, -61, -208, -36, -133, 106, 206, 139,
+	201, 195, 225, 226, 212, 243, 199, 244, -130, -133,
+	-61, -61, -118, -61, -61, 288, -82, 79, -37, 77,
+	-93, 50, -94, -70, -72, -71, -207, -2, -88, -117,
+	-92, -82, -98, -37, -37, -37, 52, -37, -207, -207,
+	-207, -208, 53, -82, -55, 263, 267, 268, -168, -169,
+	-172, -171, -117, 135, 10, 9, 19, 131, 125, 55,
+	55, 55, -196, 134, 309, -198, 312, -144, -207, 52,
+	22, 28, 58, -199, 52, -189, 311, -207, -143, 52,
+	-143, 52, 52, 54, -146, -146, -145, -146, -146, -146,
+	55, 106, 54, 53, 54, 199, 199, 53, 54, 53,
+	-51, -117, 53, 80, -188, 19, 159, 160, -51, -202,
+	-210, 120, 135, -128, -117, -128, -117, -51, -128, -117,
+	127, -158, 57, -37, -55, -39, -208, -61, -208, -143,
+	-143, -143, -152, -143, 186, -143, 186, -208, -208, -208,
+	53, 19, -208, 53, 19, -207, -32, 285, -37, 27,
+	-93, 53, -208, -208, -208, 53, 109, -208, -86, -89,
+	-117, 135, -89, -89, -89, -126, -117, -86, 54, 53,
+	-143, -143, -160, 155, 156, 29, 157, -160, 309, 135,
+	135, -196, -197, -37, -89, 299, 53, 54, -199, 210,
+	200, 239, 216, -208, 54, 54, 54, -146, -145, 57,
+	-145, 246, 246, 58, 58, 52, 51, 50, -181, -169,
+	122, 20, 6, 8, 9, 10, 19, 22, -117, 52,
+	26, -117, -80, 13, -145, 55, -61, -61, -61, -61,
+	-61, -208, 57, 135, -72, 32, -2, -207, -117, -117,
+	53, 54, -208, -208, -208, -54, -174, -176, 291, -175,
+	51, 132, 64, 164, 165, 166, 167, 168, 169, 170,
+	-171, -85, -197, 50, 66, 158, -197, 50, -161, -117,
+	-196, -207, -208, 54, 52, 58, 54, 208, -150, -146,
+	-146, 54, 54, -172, -117, -51, -162, -117, 173, -203,
+	-204, -7, -9, -8, 52, -89, -207, 125, -81, 14,
+	16, -208, -208, -208, -208, -31, 90, 291, 9, -70,
+	-2, 109, -117, -173, 50, -175, 291, 52, 293, 55,
+	-164, 80, 57, 80, 80, 80, 80, 80, 80, 80,
+	9, 10, 52, 52, -37, -193, 157, -195, 54, 54,
+	54, 52, 52, -190, 53, 51, 174, -204, -172, 54,
+	-178, -179, 145, 135, -37, -69, -208, 289, 47, 294,
+	-94, -208, -117, -117, -177, -175, -117, 58, -200, 50,
+	69, 58, -200, -200, -200, -200, -200, -160, -160, -162,
+	-172, -208, 286, 54, 176, 301, 302, 144, 303, 157,
+	304, 305, -90, 310, -172, -172, -191, 291, -117, -37,
+	-204, 54, -185, -208, 53, -117, 52, 37, 290, 295,
+	-207, 54, 53, -197, -197, 54, 54, 291, 58, 16,
+	58, 58, 58, 58, 302, 144, 304, 16, -55, 52,
+	54, 54, 312, -183, -179, 32, -172, 37, -117, -175,
+	128, -174, 58, 58, 306, -123, -174, -89, -55, -174,
+	-37, 147, 54, 291, -208, -51, -173, 109, -173, 54,
+	-174, 148, 294, 52, -118, -207, 295, -162, -61, 144,
+	54, -208, -208,
 }
 
 var yyDef = [...]int{
@@ -2912,7 +2915,7 @@ var yyDef = [...]int{
 	243, 181, 243, 243, 243, 243, 243, 215, 243, 243,
 	260, 260, 260, 260, 260, 224, 225, 226, 227, 228,
 	229, 230, 0, 0, 200, 243, 243, 243, 204, 243,
-	206, 207, 233, 234, 235, 236, 237, 238, 239, 240,
+	206, 243, 233, 234, 235, 236, 237, 238, 239, 240,
 	245, 245, 245, 247, 247, 198, 199, 0, 0, 99,
 	0, 996, 0, 996, 0, 0, 0, 71, 72, 106,
 	0, 0, 345, 0, 373, 725, 0, 996, 376, 377,
@@ -2937,81 +2940,81 @@ var yyDef = [...]int{
 	130, 320, 0, 0, 0, 0, 0, 119, 0, 259,
 	255, 254, 180, 0, 260, 260, 243, 260, 260, 260,
 	217, 218, 263, 0, 263, 263, 263, 263, 0, 0,
-	250, 250, 203, 205, 192, 0, 245, 194, 195, 196,
-	0, 197, 0, 0, 65, 0, 97, 98, 66, 727,
-	67, 81, 0, 73, 74, 75, 0, 995, 94, 0,
-	740, 346, 730, 731, 732, 733, 734, 735, 736, 737,
-	738, 739, 0, 0, 372, 996, 375, 413, 0, 0,
-	0, 684, 685, 0, 677, 23, 0, 722, 723, 668,
-	669, 457, 534, 536, 538, 0, 444, 525, 546, 529,
-	0, 526, 0, 0, 520, 586, 0, 0, 553, -2,
-	589, 590, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 674, 0, 652, 0, 0, 603, 615, 616, 617,
-	618, 699, 0, 0, -2, 0, 0, 674, 0, 0,
-	0, 473, 480, 0, 0, 474, 0, 475, 495, 497,
-	0, 0, 0, 0, 471, 674, 508, 38, 50, 51,
-	0, 0, 57, 265, 0, 330, 0, 0, 306, 0,
-	0, 0, 323, 292, 0, 0, 295, 0, 297, 317,
-	121, 0, 0, 0, 127, 129, 0, 133, 134, 0,
-	151, 0, 0, 140, 0, 175, 144, 145, 146, 147,
-	148, 149, 0, 243, 243, 171, 0, 258, 114, 256,
-	0, 263, 263, 260, 263, 263, 263, 219, 0, 220,
-	221, 222, 223, 0, 241, 0, 201, 0, 0, 202,
-	0, 193, 0, 0, 0, -2, 100, 101, 0, 84,
-	0, 0, 0, 335, 0, 995, 0, 360, 361, 362,
-	363, 364, 365, 366, 995, 0, 347, 348, 349, 350,
-	351, 352, 353, 354, 355, 356, 357, 0, 995, 741,
-	742, 743, 744, 0, 0, 374, 395, 0, 0, 411,
-	412, 688, 0, 24, 508, 0, 451, 658, 0, 527,
-	0, 547, 530, 587, 447, 0, 243, 243, 629, 243,
-	247, 632, 633, 243, 635, 243, 638, 0, 0, 0,
-	0, 657, 0, 0, 0, 649, 602, 655, 0, 31,
-	0, 699, 689, 701, 703, 0, 27, 0, 695, 0,
-	682, 708, 509, 709, 477, 0, 482, 0, 0, 0,
-	485, 0, 682, 37, 54, 55, 56, 328, 331, 0,
-	302, 243, 243, 0, 0, 0, 0, 0, 293, 294,
-	296, 298, 317, 139, 123, 320, 124, 0, 0, 0,
-	152, 0, 0, 0, 143, 0, 0, 167, 0, 169,
-	0, 0, 244, 210, 211, 263, 212, 213, 214, 261,
-	262, 260, 0, 260, 0, 0, 0, 248, 0, 0,
-	0, 0, 0, 0, 0, 82, 83, 0, 0, 0,
-	358, 359, 339, 0, 340, 342, 343, 344, 0, 322,
-	338, 414, 415, 670, 458, 588, 531, 591, 626, 260,
-	630, 631, 634, 636, 637, 639, 593, 592, 594, 0,
-	0, 597, 0, 0, 0, 0, 0, 653, 0, 32,
-	0, 704, -2, 0, 0, 0, 44, 35, 0, 468,
-	469, 0, 0, 0, 504, 472, 36, 267, 0, 679,
-	305, 320, 312, 313, 0, 0, 320, 321, 322, 317,
-	299, 0, 0, 0, 136, 0, 141, 0, 0, 250,
-	178, 179, 150, 168, 170, 172, 216, 263, 242, 263,
-	251, 252, 0, 0, 0, 0, 0, 102, 103, 0,
-	85, 86, 87, 88, 89, 0, 0, 0, 0, 0,
-	323, 672, 0, 627, 628, 0, 0, 0, 0, 619,
-	601, 650, 0, 702, 0, -2, 0, 697, 696, 0,
-	478, 505, 506, 507, 467, 289, 268, 0, 270, 0,
-	285, 0, 0, 0, 0, 0, 0, 0, 0, 303,
-	304, 307, 0, 314, 315, 308, 0, 0, 323, 0,
-	0, 173, 135, 153, 0, 0, 176, 177, 231, 232,
-	246, 249, 0, 0, 0, 90, 324, 0, 70, 76,
-	78, 79, 80, 0, 0, 0, 0, 26, 0, 0,
-	595, 596, 598, 599, 0, 0, 0, 0, 692, 27,
-	0, 470, 266, 0, 271, 0, 0, 0, 274, 0,
-	286, 276, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 131, 0, 0, 138, 142, 510,
-	0, 0, 92, 0, 0, 0, 77, 0, 96, 0,
-	368, 0, 0, 673, 671, 600, 0, 0, 0, 700,
-	-2, 698, 290, 0, 272, 277, 275, 278, 287, 288,
-	279, 280, 281, 282, 283, 284, 320, 320, 0, 0,
-	132, 174, 137, 0, 0, 0, 0, 0, 0, 164,
-	0, 508, 0, 0, 0, 68, 0, 325, 91, 69,
-	336, 99, 367, 0, 0, 0, 620, 0, 623, 0,
-	269, 0, 309, 310, 0, 267, 0, 155, 0, 157,
-	158, 159, 160, 161, 162, 163, 0, 267, 0, 508,
-	267, 0, 341, 369, 0, 0, 621, 0, 273, 0,
-	289, 154, 156, 165, 0, 289, 0, 267, 62, 93,
-	0, 337, 0, 291, 0, 316, 0, 61, 511, 63,
-	0, 0, 0, 166, 0, 622, 0, 0, 0, 311,
-	370, 371,
+	250, 250, 203, 205, 207, 192, 0, 245, 194, 195,
+	196, 0, 197, 0, 0, 65, 0, 97, 98, 66,
+	727, 67, 81, 0, 73, 74, 75, 0, 995, 94,
+	0, 740, 346, 730, 731, 732, 733, 734, 735, 736,
+	737, 738, 739, 0, 0, 372, 996, 375, 413, 0,
+	0, 0, 684, 685, 0, 677, 23, 0, 722, 723,
+	668, 669, 457, 534, 536, 538, 0, 444, 525, 546,
+	529, 0, 526, 0, 0, 520, 586, 0, 0, 553,
+	-2, 589, 590, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 674, 0, 652, 0, 0, 603, 615, 616,
+	617, 618, 699, 0, 0, -2, 0, 0, 674, 0,
+	0, 0, 473, 480, 0, 0, 474, 0, 475, 495,
+	497, 0, 0, 0, 0, 471, 674, 508, 38, 50,
+	51, 0, 0, 57, 265, 0, 330, 0, 0, 306,
+	0, 0, 0, 323, 292, 0, 0, 295, 0, 297,
+	317, 121, 0, 0, 0, 127, 129, 0, 133, 134,
+	0, 151, 0, 0, 140, 0, 175, 144, 145, 146,
+	147, 148, 149, 0, 243, 243, 171, 0, 258, 114,
+	256, 0, 263, 263, 260, 263, 263, 263, 219, 0,
+	220, 221, 222, 223, 0, 241, 0, 201, 0, 0,
+	202, 0, 193, 0, 0, 0, -2, 100, 101, 0,
+	84, 0, 0, 0, 335, 0, 995, 0, 360, 361,
+	362, 363, 364, 365, 366, 995, 0, 347, 348, 349,
+	350, 351, 352, 353, 354, 355, 356, 357, 0, 995,
+	741, 742, 743, 744, 0, 0, 374, 395, 0, 0,
+	411, 412, 688, 0, 24, 508, 0, 451, 658, 0,
+	527, 0, 547, 530, 587, 447, 0, 243, 243, 629,
+	243, 247, 632, 633, 243, 635, 243, 638, 0, 0,
+	0, 0, 657, 0, 0, 0, 649, 602, 655, 0,
+	31, 0, 699, 689, 701, 703, 0, 27, 0, 695,
+	0, 682, 708, 509, 709, 477, 0, 482, 0, 0,
+	0, 485, 0, 682, 37, 54, 55, 56, 328, 331,
+	0, 302, 243, 243, 0, 0, 0, 0, 0, 293,
+	294, 296, 298, 317, 139, 123, 320, 124, 0, 0,
+	0, 152, 0, 0, 0, 143, 0, 0, 167, 0,
+	169, 0, 0, 244, 210, 211, 263, 212, 213, 214,
+	261, 262, 260, 0, 260, 0, 0, 0, 248, 0,
+	0, 0, 0, 0, 0, 0, 82, 83, 0, 0,
+	0, 358, 359, 339, 0, 340, 342, 343, 344, 0,
+	322, 338, 414, 415, 670, 458, 588, 531, 591, 626,
+	260, 630, 631, 634, 636, 637, 639, 593, 592, 594,
+	0, 0, 597, 0, 0, 0, 0, 0, 653, 0,
+	32, 0, 704, -2, 0, 0, 0, 44, 35, 0,
+	468, 469, 0, 0, 0, 504, 472, 36, 267, 0,
+	679, 305, 320, 312, 313, 0, 0, 320, 321, 322,
+	317, 299, 0, 0, 0, 136, 0, 141, 0, 0,
+	250, 178, 179, 150, 168, 170, 172, 216, 263, 242,
+	263, 251, 252, 0, 0, 0, 0, 0, 102, 103,
+	0, 85, 86, 87, 88, 89, 0, 0, 0, 0,
+	0, 323, 672, 0, 627, 628, 0, 0, 0, 0,
+	619, 601, 650, 0, 702, 0, -2, 0, 697, 696,
+	0, 478, 505, 506, 507, 467, 289, 268, 0, 270,
+	0, 285, 0, 0, 0, 0, 0, 0, 0, 0,
+	303, 304, 307, 0, 314, 315, 308, 0, 0, 323,
+	0, 0, 173, 135, 153, 0, 0, 176, 177, 231,
+	232, 246, 249, 0, 0, 0, 90, 324, 0, 70,
+	76, 78, 79, 80, 0, 0, 0, 0, 26, 0,
+	0, 595, 596, 598, 599, 0, 0, 0, 0, 692,
+	27, 0, 470, 266, 0, 271, 0, 0, 0, 274,
+	0, 286, 276, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 131, 0, 0, 138, 142,
+	510, 0, 0, 92, 0, 0, 0, 77, 0, 96,
+	0, 368, 0, 0, 673, 671, 600, 0, 0, 0,
+	700, -2, 698, 290, 0, 272, 277, 275, 278, 287,
+	288, 279, 280, 281, 282, 283, 284, 320, 320, 0,
+	0, 132, 174, 137, 0, 0, 0, 0, 0, 0,
+	164, 0, 508, 0, 0, 0, 68, 0, 325, 91,
+	69, 336, 99, 367, 0, 0, 0, 620, 0, 623,
+	0, 269, 0, 309, 310, 0, 267, 0, 155, 0,
+	157, 158, 159, 160, 161, 162, 163, 0, 267, 0,
+	508, 267, 0, 341, 369, 0, 0, 621, 0, 273,
+	0, 289, 154, 156, 165, 0, 289, 0, 267, 62,
+	93, 0, 337, 0, 291, 0, 316, 0, 61, 511,
+	63, 0, 0, 0, 166, 0, 622, 0, 0, 0,
+	311, 370, 371,
 }
 
 var yyTok1 = [...]int{
@@ -4626,10 +4629,10 @@ yydefault:
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 207:
-		yyDollar = yyS[yypt-1 : yypt+1]
+		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:1323
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
 	case 208:
 		yyDollar = yyS[yypt-1 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 1fb0872..0ebfbe2 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1319,9 +1319,9 @@ time_type:
   {
     $$ = ColumnType{Type: string($1)}
   }
-| YEAR
+| YEAR length_opt
   {
-    $$ = ColumnType{Type: string($1)}
+    $$ = ColumnType{Type: string($1), Length: $2}
   }
 
 bool_type:
-- 
2.43.0


From 385a7f3b68724be1bccad7732dd9c67e69c9dc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:13 +0000
Subject: [PATCH 75/85] fix: postgres: smallserial is NOT NULL

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index b3fad21..f823fbf 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1392,7 +1392,7 @@ func (g *Generator) notNull(column Column) bool {
 	if column.notNull == nil {
 		switch g.mode {
 		case GeneratorModePostgres:
-			return column.typeName == "serial" || column.typeName == "bigserial"
+			return column.typeName == "serial" || column.typeName == "bigserial" || column.typeName == "smallserial"
 		default:
 			return false
 		}
-- 
2.43.0


From eb4b08c8e42e63265a505e884c8fc86a24b0d0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:13 +0000
Subject: [PATCH 76/85] fix: postgres: export the precision of numeric and time
 types

---
 adapter/postgres/postgres.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index d0c6815..a5c579b 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -215,7 +215,7 @@ func (c *column) GetDataType() string {
 
 func (d *PostgresDatabase) getColumns(table string) ([]column, error) {
 	const query = `SELECT s.column_name, s.column_default, s.is_nullable, s.character_maximum_length,
-	CASE WHEN s.data_type IN ('ARRAY', 'USER-DEFINED') THEN format_type(f.atttypid, f.atttypmod) ELSE s.data_type END,
+	CASE WHEN s.data_type IN ('ARRAY', 'USER-DEFINED', 'numeric', 'time without time zone', 'time with time zone', 'timestamp without time zone', 'timestamp with time zone') THEN format_type(f.atttypid, f.atttypmod) ELSE s.data_type END,
 	CASE WHEN p.contype = 'u' THEN true ELSE false END AS uniquekey,
 	CASE WHEN pc.contype = 'c' THEN pg_get_constraintdef(pc.oid, true) ELSE NULL END AS check,
 	s.identity_generation
-- 
2.43.0


From b4642f36a8245a8b7af2ddfae15cd3d1a544d7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:13 +0000
Subject: [PATCH 77/85] fix: postgres: alter a column into serial and back

---
 schema/generator.go | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index f823fbf..0e729b4 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -406,9 +406,14 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					ddls = append(ddls, ddl)
 				}
 			case GeneratorModePostgres:
-				if !g.haveSameDataType(*currentColumn, desiredColumn) || currentColumn.timezone != desiredColumn.timezone {
+				if isSerial(*currentColumn) && !isSerial(desiredColumn) {
+					// The default is the next value of the sequence.
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP DEFAULT", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
+				}
+
+				if !g.haveSameDataType(withoutSerial(*currentColumn), withoutSerial(desiredColumn)) || currentColumn.timezone != desiredColumn.timezone {
 					// Change type
-					ddl := fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s TYPE %s", g.escapeTableName(desired.table.name), g.escapeSQLName(currentColumn.name), generateDataType(desiredColumn))
+					ddl := fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s TYPE %s", g.escapeTableName(desired.table.name), g.escapeSQLName(currentColumn.name), generateDataType(withoutSerial(desiredColumn)))
 					if desiredColumn.timezone {
 						ddl += " WITH TIME ZONE"
 					}
@@ -451,7 +456,13 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				}
 
 				// default
-				if !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) {
+				if isSerial(desiredColumn) {
+					if !isSerial(*currentColumn) {
+						sequenceName := g.escapeTableName(fmt.Sprintf("%s_%s_seq", desired.table.name, desiredColumn.name))
+						ddls = append(ddls, fmt.Sprintf("CREATE SEQUENCE IF NOT EXISTS %s OWNED BY %s.%s", sequenceName, g.escapeTableName(desired.table.name), g.escapeSQLName(desiredColumn.name)))
+						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s SET DEFAULT nextval('%s')", g.escapeTableName(desired.table.name), g.escapeSQLName(desiredColumn.name), strings.ReplaceAll(sequenceName, "'", "''")))
+					}
+				} else if !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) {
 					if desiredColumn.defaultDef == nil {
 						// drop
 						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP DEFAULT", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
@@ -1388,11 +1399,28 @@ func (g *Generator) escapeSQLName(name string) string {
 	}
 }
 
+func isSerial(column Column) bool {
+	return column.typeName == "serial" || column.typeName == "bigserial" || column.typeName == "smallserial"
+}
+
+// A serial type is not a real one. The type of an existing column is the one it stands for.
+func withoutSerial(column Column) Column {
+	switch column.typeName {
+	case "smallserial":
+		column.typeName = "smallint"
+	case "serial":
+		column.typeName = "integer"
+	case "bigserial":
+		column.typeName = "bigint"
+	}
+	return column
+}
+
 func (g *Generator) notNull(column Column) bool {
 	if column.notNull == nil {
 		switch g.mode {
 		case GeneratorModePostgres:
-			return column.typeName == "serial" || column.typeName == "bigserial" || column.typeName == "smallserial"
+			return isSerial(column)
 		default:
 			return false
 		}
-- 
2.43.0


From 8f0942b21214272107e5082113c8ea85e88079f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:13 +0000
Subject: [PATCH 78/85] fix: postgres: read the columns of the table of the
 schema only

---
 adapter/postgres/postgres.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index a5c579b..a9dbb4e 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -225,7 +225,7 @@ FROM pg_attribute f
 	LEFT JOIN pg_namespace n ON n.oid = c.relnamespace
 	LEFT JOIN pg_constraint p ON p.conrelid = c.oid AND f.attnum = ANY (p.conkey) AND p.contype = 'u'
 	LEFT JOIN pg_constraint pc ON pc.conrelid = c.oid AND f.attnum = ANY (pc.conkey) AND pc.contype = 'c'
-	LEFT JOIN information_schema.columns s ON s.column_name=f.attname AND s.table_name = c.relname
+	LEFT JOIN information_schema.columns s ON s.column_name=f.attname AND s.table_name = c.relname AND s.table_schema = n.nspname
 WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum > 0 ORDER BY f.attnum;`
 
 	schema, table := splitTableName(table)
-- 
2.43.0


From 910ac60d6498ad08d4587ba4ae2344421ad4b100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:49 +0000
Subject: [PATCH 79/85] fix: postgres: drop the default of a column before it
 becomes an identity

---
 schema/generator.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 0e729b4..367e33d 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -439,22 +439,6 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ADD CONSTRAINT %s UNIQUE (%s)", g.escapeTableName(desired.table.name), g.escapeSQLName(uniqueKeyName), g.escapeSQLName(desiredColumn.name)))
 				}
 
-				// GENERATED AS IDENTITY
-				if !areSameIdentityDefinition(currentColumn.identity, desiredColumn.identity) {
-					if currentColumn.identity == nil {
-						// add
-						alter := fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s ADD GENERATED %s AS IDENTITY", g.escapeTableName(desired.table.name), g.escapeSQLName(desiredColumn.name), desiredColumn.identity.behavior)
-						if desiredColumn.sequence != nil {
-							alter += " (" + generateSequenceClause(desiredColumn.sequence) + ")"
-						}
-						ddls = append(ddls, alter)
-					} else if desiredColumn.identity != nil {
-						// set
-						// not support changing sequence
-						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s SET GENERATED %s", g.escapeTableName(desired.table.name), g.escapeSQLName(desiredColumn.name), desiredColumn.identity.behavior))
-					}
-				}
-
 				// default
 				if isSerial(desiredColumn) {
 					if !isSerial(*currentColumn) {
@@ -476,6 +460,22 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					}
 				}
 
+				// GENERATED AS IDENTITY. The column must not have a default.
+				if !areSameIdentityDefinition(currentColumn.identity, desiredColumn.identity) {
+					if currentColumn.identity == nil {
+						// add
+						alter := fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s ADD GENERATED %s AS IDENTITY", g.escapeTableName(desired.table.name), g.escapeSQLName(desiredColumn.name), desiredColumn.identity.behavior)
+						if desiredColumn.sequence != nil {
+							alter += " (" + generateSequenceClause(desiredColumn.sequence) + ")"
+						}
+						ddls = append(ddls, alter)
+					} else if desiredColumn.identity != nil {
+						// set
+						// not support changing sequence
+						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s SET GENERATED %s", g.escapeTableName(desired.table.name), g.escapeSQLName(desiredColumn.name), desiredColumn.identity.behavior))
+					}
+				}
+
 				if !areSameCheckDefinition(currentColumn.check, desiredColumn.check) || currentColumn.checkNoInherit != desiredColumn.checkNoInherit {
 					constraintName := fmt.Sprintf("%s_%s_check", g.tableNameWithoutSchema(desired.table.name), desiredColumn.name)
 					if currentColumn.check != nil {
-- 
2.43.0


From 11e0c5af45d274913616dabe84c388116104dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:32 +0000
Subject: [PATCH 80/85] fix: keep the text of views as the database has it

---
 adapter/mssql/mssql.go       | 7 +------
 adapter/postgres/postgres.go | 7 +------
 2 files changed, 2 insertions(+), 12 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index fbe545d..061fbbe 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -419,10 +419,7 @@ func boolToOnOff(in bool) string {
 	}
 }
 
-var (
-	suffixSemicolon = regexp.MustCompile(`;$`)
-	spaces          = regexp.MustCompile(`[ ]+`)
-)
+var suffixSemicolon = regexp.MustCompile(`;$`)
 
 func (d *MssqlDatabase) Views() ([]string, error) {
 	const sql = `SELECT
@@ -450,9 +447,7 @@ INNER JOIN sys.sql_modules
 			return nil, err
 		}
 		definition = strings.TrimSpace(definition)
-		definition = strings.ReplaceAll(definition, "\n", "")
 		definition = suffixSemicolon.ReplaceAllString(definition, "")
-		definition = spaces.ReplaceAllString(definition, " ")
 		ddls = append(ddls, definition)
 	}
 	if err := rows.Err(); err != nil {
diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index a9dbb4e..98ec9fa 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -58,10 +58,7 @@ func (d *PostgresDatabase) TableNames() ([]string, error) {
 	return tables, nil
 }
 
-var (
-	suffixSemicolon = regexp.MustCompile(`;$`)
-	spaces          = regexp.MustCompile(`[ ]+`)
-)
+var suffixSemicolon = regexp.MustCompile(`;$`)
 
 func (d *PostgresDatabase) Views() ([]string, error) {
 	rows, err := d.db.Query(
@@ -83,9 +80,7 @@ func (d *PostgresDatabase) Views() ([]string, error) {
 			return nil, err
 		}
 		definition = strings.TrimSpace(definition)
-		definition = strings.ReplaceAll(definition, "\n", "")
 		definition = suffixSemicolon.ReplaceAllString(definition, "")
-		definition = spaces.ReplaceAllString(definition, " ")
 		ddls = append(
 			ddls, fmt.Sprintf(
 				"CREATE VIEW %s AS %s", schema+"."+name, definition,
-- 
2.43.0


From 55ec9e0c7579826166078e739e569a134737e2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:17 +0000
Subject: [PATCH 81/85] fix: mysql: read the views of the current database only

---
 adapter/mysql/mysql.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index bb48ffd..a37789e 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -73,8 +73,8 @@ func (d *MysqlDatabase) Views() ([]string, error) {
 		if err = rows.Scan(&viewName, &viewType); err != nil {
 			return nil, err
 		}
-		query := fmt.Sprintf("select VIEW_DEFINITION from INFORMATION_SCHEMA.VIEWS where TABLE_NAME = '%s';", viewName)
-		if err = d.db.QueryRow(query).Scan(&definition); err != nil {
+		const query = "select VIEW_DEFINITION from INFORMATION_SCHEMA.VIEWS where TABLE_SCHEMA = database() and TABLE_NAME = ?;"
+		if err = d.db.QueryRow(query, viewName).Scan(&definition); err != nil {
 			return nil, err
 		}
 		ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", viewName, definition))
-- 
2.43.0


From 7ea47eab123e75f085e9efecac9282e0bd0ffae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:19 +0000
Subject: [PATCH 82/85] fix: mysql: escape the names of exported tables, views
 and triggers

---
 adapter/mysql/mysql.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index a37789e..7c5ce04 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -3,6 +3,7 @@ package mysql
 import (
 	"database/sql"
 	"fmt"
+	"strings"
 
 	driver "github.com/go-sql-driver/mysql"
 	"github.com/k0kubun/sqldef/adapter"
@@ -50,7 +51,7 @@ func (d *MysqlDatabase) TableNames() ([]string, error) {
 
 func (d *MysqlDatabase) DumpTableDDL(table string) (string, error) {
 	var ddl string
-	sql := fmt.Sprintf("show create table `%s`;", table) // TODO: escape table name
+	sql := fmt.Sprintf("show create table %s;", escapeName(table))
 
 	err := d.db.QueryRow(sql).Scan(&table, &ddl)
 	if err != nil {
@@ -77,7 +78,7 @@ func (d *MysqlDatabase) Views() ([]string, error) {
 		if err = d.db.QueryRow(query, viewName).Scan(&definition); err != nil {
 			return nil, err
 		}
-		ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", viewName, definition))
+		ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", escapeName(viewName), definition))
 	}
 	if err := rows.Err(); err != nil {
 		return nil, err
@@ -98,7 +99,7 @@ func (d *MysqlDatabase) Triggers() ([]string, error) {
 		if err = rows.Scan(&trigger, &event, &table, &statement, &timing, &created, &sqlMode, &definer, &characterSetClient, &collationConnection, &databaseCollation); err != nil {
 			return nil, err
 		}
-		ddls = append(ddls, fmt.Sprintf("CREATE TRIGGER %s %s %s ON %s FOR EACH ROW %s;", trigger, timing, event, table, statement))
+		ddls = append(ddls, fmt.Sprintf("CREATE TRIGGER %s %s %s ON %s FOR EACH ROW %s;", escapeName(trigger), timing, event, escapeName(table), statement))
 	}
 	if err := rows.Err(); err != nil {
 		return nil, err
@@ -106,6 +107,10 @@ func (d *MysqlDatabase) Triggers() ([]string, error) {
 	return ddls, nil
 }
 
+func escapeName(name string) string {
+	return "`" + strings.ReplaceAll(name, "`", "``") + "`"
+}
+
 func (d *MysqlDatabase) DB() *sql.DB {
 	return d.db
 }
-- 
2.43.0


From 39a8e00b74c292d8e37cbda41e8d5dba94b0ef63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:21 +0000
Subject: [PATCH 83/85] fix: postgres: do not mix views and keys of the same
 name in two schemas

---
 adapter/postgres/postgres.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 98ec9fa..f8c9855 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -63,7 +63,7 @@ var suffixSemicolon = regexp.MustCompile(`;$`)
 func (d *PostgresDatabase) Views() ([]string, error) {
 	rows, err := d.db.Query(
 		`select table_schema, table_name, definition from information_schema.tables
-		 inner join pg_views on table_name = viewname
+		 inner join pg_views on table_schema = schemaname and table_name = viewname
 		 where table_schema not in ('information_schema', 'pg_catalog')
 		 and (table_schema != 'public' or table_name != 'pg_buffercache')
 		 and table_type = 'VIEW';`,
@@ -306,7 +306,7 @@ func (d *PostgresDatabase) getPrimaryKeyColumns(table string) ([]string, error)
 FROM
 	information_schema.table_constraints AS tc
 	JOIN information_schema.key_column_usage AS kcu
-		ON tc.constraint_name = kcu.constraint_name
+		ON tc.constraint_name = kcu.constraint_name AND tc.table_schema = kcu.table_schema AND tc.table_name = kcu.table_name
 WHERE constraint_type = 'PRIMARY KEY' AND tc.table_schema=$1 AND tc.table_name=$2 ORDER BY kcu.ordinal_position`
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
@@ -343,11 +343,11 @@ func (d *PostgresDatabase) getForeginDefs(table string) ([]string, error) {
 FROM
 	information_schema.table_constraints AS tc
 	JOIN information_schema.key_column_usage AS kcu
-		ON tc.constraint_name = kcu.constraint_name
+		ON tc.constraint_name = kcu.constraint_name AND tc.table_schema = kcu.table_schema AND tc.table_name = kcu.table_name
 	JOIN information_schema.constraint_column_usage AS ccu
-		ON tc.constraint_name = ccu.constraint_name
+		ON tc.constraint_name = ccu.constraint_name AND tc.constraint_schema = ccu.constraint_schema
 	JOIN information_schema.referential_constraints AS rc
-		ON tc.constraint_name = rc.constraint_name
+		ON tc.constraint_name = rc.constraint_name AND tc.constraint_schema = rc.constraint_schema
 WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$2`
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
-- 
2.43.0


From 7888fb6bb0eaf6b32ad103ab8df02a3e21716c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:52 +0000
Subject: [PATCH 84/85] fix: mssql: export the length of nchar and nvarchar and
 the precision of numbers and times

---
 adapter/mssql/mssql.go |   23 +-
 sqlparser/parser.go    | 3414 ++++++++++++++++++++--------------------
 sqlparser/parser.y     |    4 +-
 3 files changed, 1729 insertions(+), 1712 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 061fbbe..ed03a39 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"net/url"
 	"regexp"
+	"strconv"
 	"strings"
 
 	_ "github.com/denisenkom/go-mssqldb"
@@ -78,8 +79,18 @@ func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, fo
 		}
 		fmt.Fprint(&queryBuilder, "\n"+indent)
 		fmt.Fprintf(&queryBuilder, "%s %s", col.Name, col.dataType)
-		if col.dataType == "char" || col.dataType == "varchar" || col.dataType == "binary" || col.dataType == "varbinary" {
+		switch col.dataType {
+		case "char", "varchar", "binary", "varbinary":
 			fmt.Fprintf(&queryBuilder, "(%s)", col.Length)
+		case "nchar", "nvarchar":
+			// max_length is in bytes, and -1 for nvarchar(max)
+			if bytes, err := strconv.Atoi(col.Length); err == nil && bytes > 0 {
+				fmt.Fprintf(&queryBuilder, "(%d)", bytes/2)
+			}
+		case "decimal", "numeric":
+			fmt.Fprintf(&queryBuilder, "(%s, %s)", col.Precision, col.Scale)
+		case "time", "datetime2", "datetimeoffset":
+			fmt.Fprintf(&queryBuilder, "(%s)", col.Scale)
 		}
 		if !col.Nullable {
 			fmt.Fprint(&queryBuilder, " NOT NULL")
@@ -166,6 +177,8 @@ type column struct {
 	Name        string
 	dataType    string
 	Length      string
+	Precision   string
+	Scale       string
 	Nullable    bool
 	Identity    *identity
 	DefaultName string
@@ -191,6 +204,8 @@ func (d *MssqlDatabase) getColumns(table string) ([]column, error) {
 	c.name,
 	[type_name] = tp.name,
 	c.max_length,
+	c.precision,
+	c.scale,
 	c.is_nullable,
 	c.is_identity,
 	ic.seed_value,
@@ -217,16 +232,18 @@ WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')`, schema, table)
 	cols := []column{}
 	for rows.Next() {
 		col := column{}
-		var colName, dataType, maxLen, defaultId string
+		var colName, dataType, maxLen, precision, scale, defaultId string
 		var seedValue, incrementValue, defaultName, defaultVal, checkName, checkDefinition *string
 		var isNullable, isIdentity bool
 		var identityNotForReplication, checkNotForReplication *bool
-		err = rows.Scan(&colName, &dataType, &maxLen, &isNullable, &isIdentity, &seedValue, &incrementValue, &identityNotForReplication, &defaultId, &defaultName, &defaultVal, &checkName, &checkDefinition, &checkNotForReplication)
+		err = rows.Scan(&colName, &dataType, &maxLen, &precision, &scale, &isNullable, &isIdentity, &seedValue, &incrementValue, &identityNotForReplication, &defaultId, &defaultName, &defaultVal, &checkName, &checkDefinition, &checkNotForReplication)
 		if err != nil {
 			return nil, err
 		}
 		col.Name = colName
 		col.Length = maxLen
+		col.Precision = precision
+		col.Scale = scale
 		if defaultId != "0" {
 			col.DefaultName = *defaultName
 			col.DefaultVal = *defaultVal
diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 4fd0478..8735265 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -764,353 +764,445 @@ var yyExca = [...]int{
 	-1, 797,
 	109, 752,
 	-2, 748,
-	-1, 1040,
+	-1, 1041,
 	5, 28,
 	-2, 551,
-	-1, 1065,
+	-1, 1066,
 	5, 27,
 	-2, 690,
-	-1, 1166,
+	-1, 1167,
 	5, 27,
 	-2, 64,
-	-1, 1383,
+	-1, 1384,
 	5, 28,
 	-2, 691,
-	-1, 1466,
+	-1, 1467,
 	5, 27,
 	-2, 693,
-	-1, 1591,
+	-1, 1592,
 	5, 28,
 	-2, 694,
 }
 
 const yyPrivate = 57344
 
-const yyLast = 14727
+const yyLast = 14725
 
 var yyAct = [...]int{
-	273, 1543, 1476, 1516, 1068, 1479, 975, 1581, 1099, 861,
-	729, 1520, 1389, 579, 1253, 498, 1102, 773, 578, 3,
-	1598, 464, 302, 1402, 1157, 879, 1254, 1168, 903, 1281,
-	952, 1280, 276, 1124, 251, 89, 1250, 983, 89, 646,
-	644, 909, 970, 923, 245, 1130, 902, 898, 1226, 1084,
-	822, 833, 53, 862, 1032, 348, 66, 735, 965, 279,
-	830, 1154, 89, 89, 353, 918, 250, 1073, 270, 353,
-	662, 849, 353, 353, 277, 799, 511, 517, 89, 345,
-	89, 462, 661, 648, 633, 330, 89, 342, 246, 247,
-	248, 249, 858, 1014, 602, 523, 329, 339, 337, 275,
-	607, 608, 328, 531, 260, 593, 1138, 52, 939, 1662,
-	1306, 264, 936, 832, 545, 1623, 1408, 555, 539, 1294,
-	542, 333, 335, 1415, 555, 1655, 557, 558, 559, 560,
-	561, 562, 563, 1696, 540, 541, 538, 544, 543, 553,
-	554, 546, 547, 548, 549, 550, 551, 552, 545, 1373,
-	510, 555, 465, 466, 1122, 1639, 1692, 86, 1536, 544,
-	543, 553, 554, 546, 547, 548, 549, 550, 551, 552,
-	545, 1370, 510, 555, 1589, 1547, 1548, 1158, 1159, 1683,
-	976, 1627, 1638, 1613, 1648, 338, 938, 544, 543, 553,
-	554, 546, 547, 548, 549, 550, 551, 552, 545, 1245,
-	477, 555, 478, 1293, 510, 1612, 1377, 475, 485, 544,
-	543, 553, 554, 546, 547, 548, 549, 550, 551, 552,
-	545, 1588, 1275, 555, 89, 1276, 1277, 892, 353, 353,
-	353, 353, 663, 353, 664, 48, 26, 27, 506, 1374,
-	353, 544, 543, 553, 554, 546, 547, 548, 549, 550,
-	551, 552, 545, 893, 894, 555, 553, 554, 546, 547,
-	548, 549, 550, 551, 552, 545, 936, 353, 555, 1221,
-	1432, 1092, 764, 1617, 1091, 520, 1431, 1093, 1140, 765,
-	941, 496, 953, 1654, 1507, 1656, 1619, 853, 925, 544,
+	273, 1544, 1480, 1582, 1517, 1477, 976, 1069, 1100, 1521,
+	729, 1254, 1390, 861, 277, 498, 1281, 1403, 773, 1103,
+	464, 1282, 302, 579, 1158, 1255, 879, 1169, 903, 646,
+	276, 1251, 1125, 971, 251, 89, 984, 644, 89, 909,
+	1131, 902, 1085, 923, 862, 578, 3, 1599, 53, 822,
+	245, 279, 833, 1033, 830, 66, 348, 918, 1227, 735,
+	898, 966, 89, 89, 353, 1155, 662, 335, 270, 353,
+	849, 1074, 353, 353, 799, 517, 511, 462, 89, 345,
+	89, 342, 661, 858, 633, 523, 89, 330, 648, 942,
+	329, 275, 531, 250, 246, 247, 248, 249, 339, 328,
+	602, 1015, 86, 607, 260, 337, 608, 1139, 593, 52,
+	936, 1663, 264, 333, 939, 545, 555, 1307, 555, 266,
+	1624, 1294, 465, 466, 1416, 1409, 1295, 1697, 832, 1640,
+	338, 1693, 548, 549, 550, 551, 552, 545, 1656, 1375,
+	555, 1590, 1549, 1684, 1548, 477, 977, 478, 1159, 1160,
+	1628, 1123, 1639, 485, 1246, 1649, 1613, 1589, 1378, 475,
+	663, 539, 664, 542, 48, 26, 27, 1277, 1278, 557,
+	558, 559, 560, 561, 562, 563, 952, 540, 541, 538,
+	544, 543, 553, 554, 546, 547, 548, 549, 550, 551,
+	552, 545, 938, 1276, 555, 1537, 544, 543, 553, 554,
+	546, 547, 548, 549, 550, 551, 552, 545, 1374, 510,
+	555, 544, 543, 553, 554, 546, 547, 548, 549, 550,
+	551, 552, 545, 892, 89, 555, 506, 1138, 353, 353,
+	353, 353, 1093, 353, 1433, 1092, 893, 894, 1094, 1432,
+	353, 1371, 510, 1141, 941, 1508, 544, 543, 553, 554,
+	546, 547, 548, 549, 550, 551, 552, 545, 764, 1135,
+	555, 1137, 1136, 953, 1456, 765, 853, 353, 510, 84,
+	80, 81, 82, 1327, 1326, 244, 967, 1367, 943, 544,
 	543, 553, 554, 546, 547, 548, 549, 550, 551, 552,
-	545, 1326, 932, 555, 921, 1614, 943, 519, 1137, 1371,
-	922, 544, 543, 553, 554, 546, 547, 548, 549, 550,
-	551, 552, 545, 556, 1325, 555, 1455, 1366, 89, 301,
-	556, 1364, 966, 244, 566, 89, 89, 89, 1495, 1576,
-	1134, 353, 1136, 1135, 736, 1518, 487, 353, 1566, 570,
-	571, 572, 573, 574, 575, 576, 345, 556, 1691, 1537,
-	1126, 1127, 1128, 928, 1420, 924, 933, 1582, 1131, 1129,
-	299, 300, 930, 929, 1419, 1204, 465, 466, 1681, 556,
-	1422, 544, 543, 553, 554, 546, 547, 548, 549, 550,
-	551, 552, 545, 347, 333, 555, 1296, 859, 468, 737,
-	738, 472, 473, 1421, 1336, 1337, 1109, 556, 546, 547,
-	548, 549, 550, 551, 552, 545, 1548, 1647, 555, 1405,
-	1583, 595, 596, 597, 598, 599, 600, 601, 1463, 556,
-	1615, 1616, 1618, 1620, 1621, 653, 1121, 1410, 659, 543,
-	553, 554, 546, 547, 548, 549, 550, 551, 552, 545,
-	628, 1287, 555, 1409, 84, 80, 81, 82, 1116, 652,
-	1115, 556, 946, 1587, 1104, 737, 738, 1670, 89, 502,
-	503, 919, 491, 967, 556, 89, 1350, 89, 353, 926,
-	89, 953, 1527, 89, 1288, 927, 920, 89, 1107, 353,
-	353, 353, 353, 353, 353, 353, 353, 548, 549, 550,
-	551, 552, 545, 353, 353, 555, 49, 75, 89, 556,
-	499, 500, 501, 1341, 504, 919, 480, 880, 882, 1440,
-	470, 508, 77, 353, 78, 78, 743, 89, 1342, 467,
-	920, 556, 1083, 353, 1082, 934, 493, 935, 495, 1081,
-	1133, 1137, 752, 727, 1201, 1403, 1404, 1406, 476, 223,
-	931, 796, 1205, 919, 776, 70, 73, 347, 347, 347,
-	347, 800, 347, 79, 680, 676, 492, 494, 920, 347,
-	71, 74, 1687, 1134, 1541, 1136, 1135, 353, 568, 569,
-	750, 1386, 1213, 1048, 1026, 771, 535, 72, 68, 486,
-	728, 797, 881, 900, 899, 768, 533, 739, 801, 740,
-	837, 556, 744, 1320, 530, 747, 798, 83, 1559, 807,
-	808, 809, 810, 811, 812, 813, 814, 815, 816, 817,
-	818, 819, 820, 821, 556, 806, 778, 1009, 89, 795,
-	766, 89, 89, 89, 89, 89, 793, 528, 1558, 804,
-	805, 803, 1202, 89, 1200, 1209, 89, 770, 1557, 785,
-	89, 825, 57, 530, 1321, 89, 89, 1203, 556, 353,
-	1556, 842, 845, 1555, 837, 1554, 1553, 851, 827, 828,
-	347, 1551, 353, 1333, 345, 1071, 667, 59, 60, 61,
-	62, 63, 769, 509, 855, 847, 665, 904, 490, 1247,
-	333, 333, 333, 333, 333, 887, 838, 839, 850, 529,
-	528, 850, 846, 1055, 863, 333, 1010, 1101, 69, 1497,
-	732, 556, 529, 528, 333, 1494, 530, 865, 866, 1249,
-	868, 1208, 954, 955, 956, 957, 876, 864, 353, 530,
-	867, 1101, 353, 884, 353, 89, 854, 89, 856, 857,
-	529, 528, 89, 890, 89, 885, 889, 89, 353, 525,
-	860, 76, 1045, 1673, 907, 1552, 1112, 530, 1672, 742,
-	789, 791, 792, 479, 1493, 1181, 790, 972, 774, 775,
-	753, 754, 755, 756, 757, 758, 759, 760, 888, 1425,
-	968, 969, 1100, 1141, 761, 762, 1101, 796, 544, 543,
-	553, 554, 546, 547, 548, 549, 550, 551, 552, 545,
-	529, 528, 555, 1111, 1101, 1653, 463, 347, 1652, 1044,
-	1651, 1043, 327, 1601, 529, 528, 266, 530, 347, 347,
-	347, 347, 347, 347, 347, 347, 800, 797, 529, 528,
-	469, 530, 347, 347, 1597, 1182, 1178, 1033, 1480, 1183,
-	1180, 1179, 1505, 1434, 74, 530, 482, 483, 484, 1599,
-	1015, 1482, 780, 1016, 1649, 1184, 1433, 982, 1302, 987,
-	50, 1177, 533, 801, 1004, 347, 1005, 1163, 1600, 1006,
-	802, 919, 510, 1029, 1030, 1031, 914, 1065, 913, 1028,
-	915, 916, 1161, 1141, 353, 917, 920, 89, 529, 528,
-	1086, 1462, 1088, 1023, 1024, 1025, 1650, 1022, 1424, 1429,
-	1352, 471, 1141, 353, 474, 530, 829, 823, 1155, 824,
-	521, 1118, 21, 1549, 353, 1291, 843, 843, 904, 1481,
-	1054, 1290, 843, 1574, 1700, 353, 1289, 1087, 1470, 1689,
-	510, 1096, 1399, 1682, 89, 1078, 1399, 1661, 1399, 1660,
-	1117, 1399, 1646, 1574, 1645, 1037, 333, 1642, 1641, 1569,
-	998, 1483, 1484, 1485, 1486, 1487, 1488, 1489, 1110, 843,
-	1094, 1052, 1089, 997, 1634, 510, 1399, 1631, 255, 1132,
-	1470, 1579, 1399, 1570, 1568, 1142, 1143, 353, 1145, 1146,
-	1147, 1105, 1106, 1108, 1470, 1503, 1160, 978, 347, 826,
-	1002, 749, 1169, 1166, 1470, 510, 1470, 1471, 1512, 996,
-	1148, 347, 1150, 1151, 1152, 1153, 748, 353, 556, 733,
-	89, 89, 731, 979, 488, 981, 1399, 1398, 89, 1272,
-	510, 1156, 1385, 510, 1329, 1328, 1162, 353, 481, 1007,
-	1323, 1324, 656, 1174, 292, 291, 294, 295, 296, 297,
-	1323, 1322, 1218, 293, 298, 1173, 1175, 463, 993, 990,
-	991, 1511, 989, 1038, 510, 630, 510, 973, 835, 510,
-	1575, 347, 1574, 347, 1242, 672, 671, 353, 353, 514,
-	518, 1506, 657, 1252, 655, 50, 1426, 347, 1478, 1417,
-	1000, 1003, 23, 1313, 1220, 1257, 536, 1255, 1219, 54,
-	1225, 1069, 1274, 1070, 1239, 1238, 353, 1251, 353, 353,
-	1069, 347, 1222, 1223, 797, 1246, 1216, 23, 1465, 1070,
-	1050, 904, 629, 904, 1047, 1240, 1241, 1260, 1243, 1244,
-	580, 1261, 886, 1262, 655, 835, 1279, 1038, 50, 591,
-	1063, 1381, 1292, 1064, 630, 23, 630, 630, 863, 1273,
-	1214, 1416, 1278, 1332, 863, 995, 1327, 1095, 1038, 891,
-	1069, 1038, 1049, 50, 257, 658, 1046, 1295, 1132, 1303,
-	1297, 1436, 1435, 730, 772, 89, 353, 1693, 1659, 1636,
-	1572, 1571, 1563, 89, 1562, 1316, 994, 1524, 353, 1504,
-	1449, 50, 635, 638, 639, 640, 636, 353, 637, 641,
-	1314, 1315, 943, 1317, 1318, 1319, 971, 1312, 1311, 89,
-	50, 1309, 1299, 1266, 777, 353, 1164, 1165, 784, 966,
-	1123, 1339, 1098, 1085, 353, 999, 959, 89, 1074, 1075,
-	1354, 1343, 958, 65, 1544, 1437, 1251, 1172, 1077, 1218,
-	1345, 1001, 347, 746, 734, 507, 873, 871, 1080, 1079,
-	870, 874, 872, 1103, 1348, 1304, 875, 1351, 639, 640,
-	1126, 1127, 1128, 869, 1113, 261, 262, 1355, 1131, 1129,
-	299, 300, 834, 836, 1667, 1637, 942, 353, 1212, 353,
-	353, 353, 89, 353, 1362, 1011, 333, 1665, 852, 353,
-	524, 1392, 1393, 1394, 1021, 1020, 512, 1330, 1206, 1380,
-	1357, 1149, 670, 522, 904, 1338, 1388, 513, 489, 1301,
-	353, 1379, 774, 775, 980, 1412, 347, 1096, 1397, 1407,
-	1450, 1395, 1414, 745, 1447, 1411, 635, 638, 639, 640,
-	636, 1347, 637, 641, 1300, 1171, 1074, 1075, 878, 974,
-	643, 258, 259, 353, 353, 524, 347, 1132, 1418, 1019,
-	1442, 353, 1443, 1444, 1445, 786, 787, 1018, 1169, 904,
-	1446, 353, 1335, 1428, 1441, 1430, 347, 1286, 252, 1657,
-	1438, 1530, 1439, 253, 1427, 54, 1529, 1453, 1070, 984,
-	985, 986, 1285, 1284, 1560, 526, 1561, 1538, 347, 1114,
-	767, 56, 1522, 7, 1523, 6, 353, 353, 1521, 5,
-	58, 1454, 1176, 843, 1340, 654, 1259, 1085, 580, 843,
-	353, 840, 841, 1466, 1255, 51, 1, 1519, 1464, 1567,
-	353, 1492, 1120, 1565, 67, 1626, 1496, 1573, 1491, 1305,
-	1334, 1475, 1191, 1170, 1185, 347, 1498, 347, 1282, 1490,
-	1133, 1137, 1500, 977, 1167, 992, 353, 353, 89, 1456,
-	1457, 353, 1458, 1459, 1460, 1508, 1580, 1594, 1477, 911,
-	353, 901, 461, 64, 1550, 912, 910, 908, 673, 937,
-	1139, 940, 1525, 1134, 679, 1136, 1135, 1513, 677, 678,
-	675, 353, 681, 674, 231, 340, 1509, 642, 1510, 666,
-	1539, 527, 897, 1545, 1199, 1198, 1540, 1192, 1255, 988,
-	1207, 763, 1194, 1187, 1188, 1331, 1195, 1190, 1189, 1008,
-	505, 1197, 1193, 303, 47, 233, 564, 1344, 1017, 1090,
-	1035, 346, 1196, 1622, 1036, 1258, 1346, 516, 1186, 1528,
-	1452, 1040, 1041, 1042, 1053, 353, 590, 848, 278, 788,
-	1051, 1577, 290, 287, 1349, 1057, 289, 288, 1058, 1059,
-	1060, 1061, 353, 347, 1585, 353, 779, 1062, 1590, 353,
-	537, 47, 268, 1595, 332, 626, 1578, 634, 632, 256,
-	1515, 631, 1076, 353, 353, 334, 1609, 1072, 331, 1215,
-	1376, 1535, 353, 353, 783, 353, 1602, 1603, 1604, 1605,
-	1606, 25, 55, 353, 1607, 1608, 1012, 1013, 1630, 518,
-	1632, 263, 19, 1480, 18, 1610, 1390, 17, 1390, 1390,
-	1390, 20, 1396, 1624, 1625, 16, 1482, 15, 347, 14,
-	29, 13, 12, 863, 11, 10, 1643, 1644, 9, 8,
-	4, 254, 22, 2, 0, 0, 0, 1658, 0, 1390,
-	0, 0, 0, 0, 0, 0, 0, 353, 0, 1663,
-	0, 353, 1664, 0, 0, 0, 0, 0, 1669, 1671,
-	0, 0, 1039, 0, 0, 0, 0, 0, 89, 0,
-	353, 1676, 347, 347, 1679, 1678, 0, 1056, 1666, 0,
-	1448, 89, 1677, 1686, 1481, 0, 0, 0, 1688, 0,
-	1451, 1690, 0, 0, 0, 0, 0, 0, 353, 0,
-	0, 0, 0, 0, 353, 0, 0, 1697, 0, 0,
-	0, 0, 0, 1694, 0, 0, 1483, 1484, 1485, 1486,
-	1487, 1488, 1489, 0, 0, 1468, 1469, 0, 0, 0,
-	0, 1224, 0, 0, 1034, 0, 0, 0, 0, 1282,
-	0, 497, 497, 497, 497, 0, 497, 0, 0, 1499,
-	0, 0, 0, 497, 544, 543, 553, 554, 546, 547,
-	548, 549, 550, 551, 552, 545, 0, 0, 555, 0,
-	47, 0, 0, 0, 1698, 1282, 1514, 0, 1271, 0,
-	1517, 0, 0, 0, 0, 565, 0, 0, 567, 1390,
+	545, 487, 1365, 555, 465, 466, 1655, 1577, 1657, 736,
+	1519, 1496, 520, 519, 1567, 544, 543, 553, 554, 546,
+	547, 548, 549, 550, 551, 552, 545, 737, 738, 555,
+	1337, 1338, 556, 1692, 556, 1682, 566, 1583, 89, 301,
+	502, 503, 1406, 1342, 1205, 89, 89, 89, 859, 1584,
+	1464, 353, 1411, 1410, 1671, 1117, 556, 353, 1343, 570,
+	571, 572, 573, 574, 575, 576, 345, 543, 553, 554,
+	546, 547, 548, 549, 550, 551, 552, 545, 1116, 1202,
+	555, 1372, 514, 518, 1105, 553, 554, 546, 547, 548,
+	549, 550, 551, 552, 545, 1549, 333, 555, 1648, 536,
+	1110, 1108, 919, 347, 1297, 628, 1538, 1288, 468, 1588,
+	556, 472, 473, 1351, 652, 1528, 1289, 920, 546, 547,
+	548, 549, 550, 551, 552, 545, 556, 968, 555, 953,
+	737, 738, 83, 580, 595, 596, 597, 598, 599, 600,
+	601, 556, 591, 1122, 946, 49, 491, 1441, 480, 659,
+	470, 78, 653, 544, 543, 553, 554, 546, 547, 548,
+	549, 550, 551, 552, 545, 919, 919, 555, 1404, 1405,
+	1407, 880, 882, 77, 467, 78, 556, 1203, 89, 1201,
+	920, 920, 743, 1084, 1083, 89, 1082, 89, 353, 727,
+	89, 476, 1204, 89, 223, 79, 1206, 89, 1688, 353,
+	353, 353, 353, 353, 353, 353, 353, 568, 569, 556,
+	493, 1542, 495, 353, 353, 1387, 1214, 1049, 89, 1027,
 	544, 543, 553, 554, 546, 547, 548, 549, 550, 551,
-	552, 545, 0, 1685, 555, 0, 0, 0, 0, 0,
-	1542, 0, 0, 0, 0, 577, 0, 581, 582, 583,
-	584, 585, 586, 587, 588, 589, 0, 592, 594, 594,
-	594, 594, 594, 594, 594, 594, 0, 622, 623, 624,
-	625, 0, 0, 1546, 1125, 0, 0, 0, 645, 1126,
-	1127, 1128, 0, 0, 0, 0, 0, 1131, 1129, 299,
-	300, 0, 0, 0, 1282, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 843, 0,
-	0, 1592, 1248, 0, 1593, 0, 0, 0, 1596, 0,
-	0, 0, 0, 0, 0, 0, 0, 1263, 1264, 0,
-	0, 1265, 1517, 1282, 1267, 0, 0, 515, 0, 0,
-	0, 1282, 1282, 1356, 1628, 0, 0, 0, 0, 0,
-	1358, 0, 1635, 0, 0, 0, 0, 0, 0, 0,
-	0, 1227, 1367, 1368, 1369, 0, 0, 1372, 0, 0,
-	0, 0, 87, 0, 0, 243, 0, 0, 0, 0,
-	1382, 1383, 1384, 229, 1387, 0, 0, 0, 0, 944,
-	945, 947, 948, 949, 1229, 950, 951, 267, 0, 87,
-	87, 0, 0, 0, 556, 0, 1282, 239, 0, 0,
-	1668, 0, 960, 961, 962, 87, 963, 87, 964, 0,
-	0, 497, 0, 87, 0, 0, 0, 0, 0, 1390,
-	0, 1423, 497, 497, 497, 497, 497, 497, 497, 497,
-	556, 0, 0, 0, 0, 0, 497, 497, 0, 0,
-	1231, 0, 0, 603, 1236, 0, 1230, 347, 224, 1133,
-	1137, 1228, 0, 1517, 226, 0, 1353, 1234, 0, 0,
-	0, 232, 228, 0, 0, 0, 0, 0, 0, 0,
-	1232, 1233, 0, 0, 0, 0, 605, 0, 0, 0,
-	0, 0, 1134, 0, 1136, 1135, 0, 0, 1235, 1237,
-	1461, 230, 0, 0, 234, 0, 1378, 0, 0, 0,
-	0, 47, 0, 580, 0, 0, 1472, 1473, 1474, 0,
-	0, 0, 0, 0, 0, 581, 0, 610, 611, 612,
-	613, 614, 615, 616, 617, 618, 619, 1502, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 606, 0,
-	0, 0, 0, 0, 0, 1413, 620, 604, 0, 0,
-	0, 87, 225, 609, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 334, 334, 334, 334, 334, 703,
-	1531, 1532, 1533, 1534, 0, 0, 0, 0, 0, 645,
-	0, 883, 0, 0, 0, 0, 0, 0, 334, 0,
-	227, 0, 235, 236, 237, 238, 242, 0, 0, 0,
-	0, 241, 240, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 621, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 1144, 0, 0, 688, 0, 0, 1586,
-	0, 0, 0, 0, 1591, 87, 0, 0, 0, 0,
-	0, 0, 87, 650, 87, 497, 0, 497, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 1611, 704,
-	0, 497, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 1633, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	610, 611, 612, 613, 614, 615, 616, 617, 618, 619,
-	1027, 720, 721, 0, 722, 723, 724, 726, 725, 705,
-	706, 707, 711, 709, 708, 710, 682, 684, 1564, 620,
-	683, 689, 685, 686, 687, 701, 690, 691, 692, 693,
-	694, 695, 696, 697, 698, 699, 700, 702, 712, 713,
-	714, 715, 716, 717, 718, 719, 1584, 580, 0, 0,
-	0, 0, 1684, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 1066, 1067, 0, 87, 0, 0, 0, 0,
-	0, 0, 87, 0, 87, 0, 0, 87, 0, 0,
-	87, 0, 1701, 1702, 751, 0, 0, 0, 0, 0,
-	334, 0, 1629, 0, 0, 0, 0, 0, 0, 621,
-	0, 1308, 1310, 0, 0, 87, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 87, 0, 0, 23, 24, 48,
-	26, 27, 0, 751, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 42, 0, 0, 0,
-	28, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 37,
-	0, 0, 0, 50, 0, 267, 0, 0, 47, 1680,
-	267, 267, 0, 0, 844, 844, 267, 0, 0, 0,
-	844, 0, 0, 0, 1359, 1360, 0, 1361, 0, 0,
-	0, 1363, 0, 1365, 0, 0, 0, 0, 0, 0,
-	497, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	267, 267, 267, 267, 0, 87, 0, 844, 87, 87,
-	87, 87, 87, 30, 31, 33, 32, 35, 0, 0,
-	877, 0, 0, 87, 0, 0, 0, 650, 0, 1400,
-	1401, 0, 87, 87, 0, 0, 0, 36, 43, 44,
-	0, 0, 45, 46, 34, 0, 0, 0, 1256, 0,
-	47, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 1268, 1269, 1270, 0, 0,
-	0, 0, 0, 0, 0, 0, 38, 39, 0, 40,
-	41, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 1298, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 87, 0, 87, 0, 0, 1307, 0, 87,
-	0, 87, 0, 0, 87, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 751,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 267, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	49, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	334, 0, 0, 0, 0, 0, 0, 0, 0, 267,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 267, 0, 0, 0, 1375,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 87, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 1119, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 1256, 0, 0, 1467, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 1210, 1211, 0,
-	0, 0, 0, 0, 0, 87, 1501, 0, 0, 0,
+	552, 545, 1321, 353, 555, 556, 771, 89, 509, 1421,
+	492, 494, 535, 353, 486, 728, 881, 900, 899, 1420,
+	774, 775, 739, 752, 740, 1423, 768, 744, 530, 806,
+	747, 796, 1560, 1210, 776, 57, 1559, 347, 347, 347,
+	347, 800, 347, 804, 805, 803, 1558, 680, 1422, 347,
+	676, 1557, 1010, 1322, 1556, 766, 556, 353, 529, 528,
+	59, 60, 61, 62, 63, 1250, 529, 528, 750, 528,
+	801, 1555, 797, 556, 785, 530, 533, 1554, 850, 1552,
+	1334, 842, 845, 530, 1072, 530, 798, 851, 665, 807,
+	808, 809, 810, 811, 812, 813, 814, 815, 816, 817,
+	818, 819, 820, 821, 556, 793, 778, 837, 89, 1209,
+	1248, 89, 89, 89, 89, 89, 850, 795, 1056, 1102,
+	1498, 529, 528, 89, 863, 1045, 89, 1044, 786, 787,
+	89, 1011, 490, 732, 1495, 89, 89, 825, 530, 353,
+	827, 828, 1102, 556, 529, 528, 1046, 789, 791, 792,
+	347, 525, 353, 790, 345, 847, 667, 510, 855, 1600,
+	1494, 530, 333, 333, 333, 333, 333, 904, 76, 1674,
+	463, 837, 887, 529, 528, 860, 1101, 333, 1601, 1113,
+	1673, 580, 1102, 50, 840, 841, 333, 479, 1654, 1553,
+	530, 838, 839, 802, 529, 528, 1653, 846, 1102, 865,
+	866, 864, 868, 888, 867, 1652, 876, 1602, 353, 469,
+	556, 530, 353, 1598, 353, 89, 885, 89, 884, 1650,
+	889, 1426, 89, 890, 89, 1142, 1112, 89, 353, 327,
+	907, 854, 1425, 856, 857, 919, 1142, 1506, 973, 1435,
+	914, 1228, 913, 1434, 915, 916, 1024, 1025, 1026, 917,
+	920, 1303, 944, 945, 947, 948, 949, 1164, 950, 951,
+	823, 1651, 824, 969, 970, 897, 1162, 796, 1142, 1463,
+	482, 483, 484, 1430, 1230, 960, 961, 962, 963, 964,
+	471, 965, 983, 474, 988, 1353, 1156, 347, 1119, 1005,
+	21, 1006, 1550, 521, 1007, 1222, 1575, 1701, 347, 347,
+	347, 347, 347, 347, 347, 347, 800, 1292, 797, 1471,
+	1690, 510, 347, 347, 1291, 544, 543, 553, 554, 546,
+	547, 548, 549, 550, 551, 552, 545, 1290, 1016, 555,
+	1232, 1111, 780, 1017, 1237, 801, 1231, 1400, 1683, 1400,
+	1662, 1229, 533, 1400, 1661, 347, 255, 1235, 954, 955,
+	956, 957, 1095, 1030, 1031, 1032, 1400, 1647, 1029, 979,
+	1233, 1234, 1575, 1646, 353, 1643, 1642, 89, 826, 1013,
+	1014, 749, 518, 1087, 748, 1089, 1635, 510, 1236, 1238,
+	1614, 1400, 1632, 353, 1066, 733, 829, 1471, 1580, 1400,
+	1571, 1570, 1023, 731, 353, 488, 843, 843, 904, 1055,
+	1471, 1504, 843, 481, 1088, 353, 463, 770, 1471, 510,
+	1569, 1097, 1471, 1472, 89, 1400, 1399, 1513, 333, 1079,
+	1118, 1512, 544, 543, 553, 554, 546, 547, 548, 549,
+	550, 551, 552, 545, 1507, 1040, 555, 1427, 1090, 843,
+	1038, 1418, 769, 1182, 1273, 510, 1314, 1133, 1386, 510,
+	1057, 1330, 1329, 1106, 1107, 1109, 1053, 1070, 353, 529,
+	528, 1324, 1325, 1324, 1323, 1576, 1161, 1575, 347, 1252,
+	1618, 1034, 1070, 1170, 1039, 510, 530, 630, 510, 835,
+	510, 347, 1217, 1620, 672, 671, 23, 54, 353, 835,
+	1071, 89, 89, 1149, 656, 1151, 1152, 1153, 1154, 89,
+	1051, 1167, 1615, 1071, 23, 1157, 1382, 630, 353, 1064,
+	1163, 1048, 1065, 1183, 1179, 23, 1145, 1184, 1181, 1180,
+	1175, 1417, 74, 1219, 1039, 1039, 1176, 1333, 1174, 777,
+	1466, 630, 50, 1185, 657, 556, 655, 974, 886, 1178,
+	655, 347, 1050, 347, 1070, 1243, 629, 1328, 353, 353,
+	50, 1545, 1096, 1047, 1437, 1436, 50, 347, 1253, 863,
+	75, 50, 1694, 1220, 1221, 863, 1215, 891, 1256, 1039,
+	630, 658, 1226, 772, 257, 1239, 1275, 353, 1660, 353,
+	353, 347, 1247, 1223, 1224, 1240, 797, 834, 836, 1637,
+	1573, 1261, 904, 1258, 904, 1263, 1241, 1242, 1262, 1244,
+	1245, 1143, 1144, 852, 1146, 1147, 1148, 1280, 70, 73,
+	1572, 1564, 1293, 1563, 1525, 1505, 1274, 1450, 1279, 943,
+	50, 972, 1313, 71, 74, 1312, 1310, 1616, 1617, 1619,
+	1621, 1622, 1300, 1267, 1165, 1166, 1298, 1133, 1296, 1304,
+	72, 68, 556, 967, 1124, 1099, 89, 353, 1075, 1076,
+	784, 959, 958, 878, 89, 65, 1249, 730, 1438, 353,
+	292, 291, 294, 295, 296, 297, 1252, 1173, 353, 293,
+	298, 1264, 1265, 1078, 746, 1266, 734, 507, 1268, 875,
+	89, 639, 640, 1081, 1315, 1316, 353, 1318, 1319, 1320,
+	1080, 1340, 873, 1086, 871, 353, 870, 874, 89, 872,
+	869, 261, 262, 1668, 1355, 1309, 1311, 1638, 1344, 1213,
+	1219, 1012, 347, 1331, 524, 1666, 1022, 1346, 1021, 512,
+	1150, 1339, 1302, 1104, 670, 1380, 1352, 522, 489, 1451,
+	513, 1349, 774, 775, 1114, 1356, 635, 638, 639, 640,
+	636, 981, 637, 641, 745, 1448, 1363, 1348, 353, 333,
+	353, 353, 353, 89, 353, 1443, 1301, 1444, 1445, 1446,
+	353, 69, 1393, 1394, 1395, 1381, 1172, 975, 643, 1442,
+	1020, 1358, 258, 259, 524, 904, 1447, 1389, 1019, 1336,
+	1287, 353, 1396, 252, 1408, 1658, 1413, 347, 1097, 1398,
+	1531, 253, 54, 1415, 1530, 1412, 1454, 1071, 1360, 1361,
+	526, 1362, 1317, 1286, 1285, 1364, 1562, 1366, 1561, 1539,
+	1354, 985, 986, 987, 353, 353, 1133, 347, 1419, 1115,
+	767, 56, 353, 1481, 1523, 7, 1524, 6, 58, 1170,
+	904, 1177, 353, 1522, 5, 1036, 1483, 347, 1341, 1037,
+	654, 1439, 51, 1440, 1, 1520, 1041, 1042, 1043, 1568,
+	1379, 1121, 1566, 1401, 1402, 1052, 67, 580, 1428, 347,
+	1058, 1627, 1574, 1059, 1060, 1061, 1062, 353, 353, 1306,
+	1335, 1171, 1186, 978, 843, 1168, 496, 1260, 1086, 993,
+	843, 353, 1581, 1595, 1478, 1256, 911, 901, 1465, 461,
+	64, 353, 1493, 1551, 912, 910, 908, 1497, 673, 1414,
+	1492, 937, 1491, 1476, 1482, 1140, 347, 940, 347, 1283,
+	1499, 1467, 1501, 679, 677, 678, 675, 353, 353, 89,
+	1457, 1458, 353, 1459, 1460, 1461, 1509, 681, 674, 231,
+	340, 353, 642, 1514, 666, 527, 1484, 1485, 1486, 1487,
+	1488, 1489, 1490, 1526, 635, 638, 639, 640, 636, 1200,
+	637, 641, 353, 1199, 1075, 1076, 989, 1208, 1540, 763,
+	1009, 1546, 505, 233, 564, 1018, 1091, 346, 1623, 1256,
+	1510, 1259, 1511, 516, 1529, 1453, 1332, 1054, 590, 848,
+	1429, 278, 1431, 788, 303, 47, 1516, 290, 1345, 287,
+	289, 288, 779, 1063, 1541, 537, 268, 1347, 332, 626,
+	634, 632, 631, 1077, 1073, 331, 353, 1216, 1377, 1536,
+	1578, 783, 25, 55, 263, 1350, 19, 18, 1455, 17,
+	20, 16, 1579, 353, 347, 15, 353, 14, 29, 13,
+	353, 1596, 47, 1591, 863, 1586, 12, 11, 10, 9,
+	256, 8, 4, 254, 353, 353, 334, 1225, 1610, 22,
+	2, 0, 0, 353, 353, 0, 353, 0, 0, 1608,
+	1609, 1611, 0, 1479, 353, 0, 0, 1631, 0, 1625,
+	1626, 1633, 0, 0, 0, 0, 0, 1391, 0, 1391,
+	1391, 1391, 0, 1397, 1603, 1604, 1605, 1606, 1607, 347,
+	1481, 0, 0, 0, 1272, 0, 0, 1644, 1645, 0,
+	0, 0, 1565, 1483, 0, 499, 500, 501, 0, 504,
+	1391, 1659, 0, 0, 0, 0, 508, 0, 353, 1665,
+	1664, 0, 353, 0, 0, 0, 1670, 0, 936, 0,
+	1585, 580, 0, 1672, 1667, 0, 0, 0, 0, 89,
+	0, 353, 0, 347, 347, 1677, 0, 0, 1680, 1679,
+	925, 1449, 89, 1678, 1687, 0, 0, 0, 0, 1689,
+	0, 1452, 0, 0, 932, 1691, 921, 0, 0, 353,
+	0, 1482, 922, 0, 0, 353, 1630, 0, 0, 1698,
+	0, 0, 0, 0, 1695, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 1469, 1470, 0, 0,
+	0, 0, 0, 1484, 1485, 1486, 1487, 1488, 1489, 1490,
+	1283, 0, 497, 497, 497, 497, 0, 497, 0, 1686,
+	1500, 0, 0, 0, 497, 928, 0, 924, 933, 1357,
+	0, 0, 0, 0, 930, 929, 1359, 0, 0, 0,
+	0, 47, 0, 0, 0, 1699, 1283, 1515, 1368, 1369,
+	1370, 1518, 0, 1373, 0, 0, 565, 0, 0, 567,
+	1391, 0, 0, 1681, 0, 0, 1383, 1384, 1385, 0,
+	1388, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 1543, 0, 0, 0, 0, 577, 0, 581, 582,
+	583, 584, 585, 586, 587, 588, 589, 0, 592, 594,
+	594, 594, 594, 594, 594, 594, 594, 0, 622, 623,
+	624, 625, 0, 0, 0, 0, 0, 1424, 0, 645,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	1547, 0, 0, 0, 0, 1283, 0, 0, 0, 0,
+	0, 926, 0, 0, 0, 0, 0, 927, 0, 843,
+	0, 0, 1593, 515, 742, 1594, 0, 0, 0, 1597,
+	0, 0, 0, 0, 0, 753, 754, 755, 756, 757,
+	758, 759, 760, 1518, 1283, 0, 0, 0, 0, 761,
+	762, 0, 1283, 1283, 0, 1629, 1462, 0, 87, 0,
+	0, 243, 0, 1636, 999, 0, 0, 934, 0, 935,
+	0, 0, 1473, 1474, 1475, 0, 0, 998, 0, 0,
+	0, 0, 931, 267, 0, 87, 87, 0, 0, 0,
+	0, 0, 0, 1503, 0, 0, 0, 0, 0, 0,
+	0, 87, 0, 87, 1003, 0, 0, 0, 0, 87,
+	0, 0, 0, 997, 0, 0, 0, 1283, 0, 0,
+	0, 1669, 0, 603, 0, 0, 0, 0, 0, 0,
+	0, 0, 497, 0, 0, 0, 1532, 1533, 1534, 1535,
+	1391, 0, 0, 497, 497, 497, 497, 497, 497, 497,
+	497, 0, 0, 0, 0, 1035, 605, 497, 497, 0,
+	0, 0, 994, 991, 992, 0, 990, 0, 347, 0,
+	0, 0, 0, 0, 1518, 544, 543, 553, 554, 546,
+	547, 548, 549, 550, 551, 552, 545, 0, 0, 555,
+	0, 0, 0, 0, 1001, 1004, 0, 610, 611, 612,
+	613, 614, 615, 616, 617, 618, 619, 0, 0, 0,
+	0, 0, 0, 0, 0, 1587, 0, 0, 606, 0,
+	1592, 0, 47, 0, 0, 0, 620, 604, 0, 0,
+	0, 0, 0, 609, 0, 0, 581, 0, 0, 0,
+	0, 0, 0, 0, 1612, 0, 0, 87, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 996,
+	1634, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 703, 0, 0, 0, 0, 0, 980, 0,
+	982, 0, 0, 0, 0, 334, 334, 334, 334, 334,
+	995, 0, 0, 0, 1008, 0, 0, 0, 1305, 0,
+	645, 0, 883, 1127, 1128, 1129, 621, 0, 0, 334,
+	0, 1132, 1130, 299, 300, 0, 0, 0, 0, 1126,
+	0, 0, 0, 0, 1127, 1128, 1129, 0, 0, 1000,
+	0, 0, 1132, 1130, 299, 300, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 1002, 0, 0, 1685, 688,
+	0, 87, 0, 1127, 1128, 1129, 0, 0, 87, 650,
+	87, 1132, 1130, 299, 300, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 1702, 1703,
+	0, 0, 704, 0, 0, 0, 497, 0, 497, 0,
+	0, 0, 0, 0, 0, 556, 0, 0, 0, 0,
+	0, 0, 497, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 610, 611, 612, 613, 614, 615, 616,
+	617, 618, 619, 0, 720, 721, 0, 722, 723, 724,
+	726, 725, 705, 706, 707, 711, 709, 708, 710, 682,
+	684, 1028, 620, 683, 689, 685, 686, 687, 701, 690,
+	691, 692, 693, 694, 695, 696, 697, 698, 699, 700,
+	702, 712, 713, 714, 715, 716, 717, 718, 719, 0,
+	0, 0, 0, 1134, 1138, 0, 0, 0, 0, 0,
+	0, 87, 0, 0, 0, 0, 0, 0, 87, 0,
+	87, 0, 0, 87, 1134, 1138, 87, 0, 0, 0,
+	751, 0, 0, 1067, 1068, 0, 1135, 0, 1137, 1136,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 87, 621, 1134, 1138, 0, 0, 1135, 0, 1137,
+	1136, 334, 0, 0, 0, 0, 0, 0, 1192, 0,
+	87, 0, 0, 0, 1207, 0, 0, 0, 0, 751,
+	0, 0, 0, 0, 0, 0, 1135, 0, 1137, 1136,
+	0, 0, 0, 0, 0, 23, 24, 48, 26, 27,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 42, 0, 0, 0, 28, 0,
+	0, 267, 0, 0, 0, 229, 267, 267, 0, 0,
+	844, 844, 267, 1193, 0, 0, 844, 37, 1195, 1188,
+	1189, 50, 1196, 1191, 1190, 0, 0, 1198, 1194, 239,
+	47, 0, 0, 0, 0, 0, 0, 0, 1197, 0,
+	0, 0, 0, 0, 1187, 0, 267, 267, 267, 267,
+	0, 87, 0, 844, 87, 87, 87, 87, 87, 0,
+	0, 0, 497, 0, 0, 0, 877, 0, 0, 87,
+	0, 0, 0, 650, 0, 0, 0, 0, 87, 87,
+	224, 30, 31, 33, 32, 35, 226, 0, 0, 0,
+	0, 0, 0, 232, 228, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 36, 43, 44, 0, 0,
+	45, 46, 34, 0, 0, 0, 0, 0, 0, 0,
+	1257, 0, 47, 230, 0, 0, 234, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 1269, 1270, 1271,
+	0, 0, 0, 0, 38, 39, 0, 40, 41, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 87, 0,
+	87, 0, 0, 0, 0, 87, 0, 87, 0, 0,
+	87, 0, 0, 1299, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 225, 0, 0, 0, 0, 1308,
+	0, 0, 0, 0, 0, 751, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 267, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 227, 0, 235, 236, 237, 238, 242, 0,
+	0, 0, 0, 241, 240, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 49, 0,
 	0, 0, 0, 0, 0, 267, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 267, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 751, 0, 0, 0,
-	0, 0, 0, 0, 1526, 0, 0, 0, 0, 0,
-	0, 844, 0, 0, 0, 0, 0, 844, 0, 1256,
-	0, 47, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 267, 334, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 1376, 0, 0, 0, 0, 0, 0, 0, 0,
+	87, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 1120, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 87, 0, 0, 0, 0, 0, 0, 0,
-	87, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 87, 1640, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 87, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 1211, 1212, 0, 1257, 0, 0,
+	1468, 0, 87, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 267, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 267, 0, 0, 0, 0, 1502, 0,
+	0, 0, 0, 751, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 844, 0,
+	0, 0, 0, 0, 844, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 1527, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 1257, 0, 47, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 87,
+	0, 0, 0, 0, 0, 0, 0, 87, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 87, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 87, 0, 0, 0, 0, 0, 0, 0, 1641,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	154, 0, 92, 0, 0, 274, 0, 0, 0, 116,
+	271, 0, 0, 130, 313, 133, 0, 0, 176, 142,
+	0, 0, 0, 0, 304, 305, 0, 0, 0, 0,
+	0, 0, 895, 0, 50, 0, 650, 272, 292, 291,
+	294, 295, 296, 297, 0, 0, 105, 293, 298, 299,
+	300, 896, 0, 0, 269, 285, 0, 312, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 282, 283, 0,
+	0, 0, 0, 325, 0, 284, 0, 1696, 280, 281,
+	286, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 203, 0, 0, 323, 161, 0, 108,
+	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
+	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
+	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
+	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
+	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
+	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
+	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
+	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
+	141, 138, 87, 97, 189, 139, 137, 129, 0, 117,
+	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
+	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
+	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
+	195, 175, 314, 324, 320, 321, 318, 319, 317, 316,
+	315, 326, 306, 307, 308, 309, 311, 0, 125, 310,
+	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 170, 0, 322, 104, 0, 0, 0, 0, 0,
+	0, 0, 0, 844, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 449, 439, 0, 408, 451, 381,
+	397, 459, 399, 400, 430, 365, 416, 154, 394, 92,
+	384, 358, 391, 359, 382, 410, 116, 380, 441, 419,
+	130, 457, 133, 424, 0, 176, 142, 0, 0, 412,
+	443, 414, 436, 407, 431, 372, 423, 452, 395, 427,
+	453, 0, 0, 0, 352, 0, 905, 906, 0, 0,
+	0, 0, 0, 105, 0, 426, 448, 393, 460, 429,
+	357, 425, 0, 363, 366, 458, 446, 388, 389, 1098,
+	0, 0, 0, 0, 0, 0, 411, 415, 433, 404,
+	0, 0, 0, 0, 0, 0, 0, 0, 385, 0,
+	422, 0, 0, 0, 369, 364, 0, 409, 0, 0,
+	0, 371, 1676, 386, 434, 0, 354, 438, 444, 406,
+	203, 447, 403, 402, 161, 87, 108, 0, 182, 120,
+	396, 131, 432, 450, 413, 442, 383, 392, 110, 390,
+	168, 155, 194, 421, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	362, 355, 387, 437, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	360, 0, 177, 196, 214, 215, 361, 379, 445, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 428, 169, 107, 195, 175, 375,
+	378, 373, 374, 417, 418, 454, 455, 456, 435, 370,
+	0, 376, 377, 0, 440, 125, 420, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 398, 356, 401, 0,
+	0, 0, 0, 0, 0, 0, 367, 368, 170, 405,
+	0, 104, 449, 439, 0, 408, 451, 381, 397, 459,
+	399, 400, 430, 365, 416, 154, 394, 92, 384, 358,
+	391, 359, 382, 410, 116, 380, 441, 419, 130, 457,
+	133, 424, 0, 176, 142, 0, 0, 412, 443, 414,
+	436, 407, 431, 372, 423, 452, 395, 427, 453, 0,
+	0, 0, 352, 0, 905, 906, 0, 0, 0, 0,
+	0, 105, 0, 426, 448, 393, 460, 429, 357, 425,
+	0, 363, 366, 458, 446, 388, 389, 0, 0, 0,
+	0, 0, 0, 0, 411, 415, 433, 404, 0, 0,
+	0, 0, 0, 0, 0, 0, 385, 0, 422, 0,
+	0, 0, 369, 364, 0, 409, 0, 0, 0, 371,
+	0, 386, 434, 0, 354, 438, 444, 406, 203, 447,
+	403, 402, 161, 0, 108, 0, 182, 120, 396, 131,
+	432, 450, 413, 442, 383, 392, 110, 390, 168, 155,
+	194, 421, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 362, 355,
+	387, 437, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 360, 0,
+	177, 196, 214, 215, 361, 379, 445, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 428, 169, 107, 195, 175, 375, 378, 373,
+	374, 417, 418, 454, 455, 456, 435, 370, 0, 376,
+	377, 0, 440, 125, 420, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 398, 356, 401, 0, 0, 0,
+	0, 0, 0, 0, 367, 368, 170, 405, 0, 104,
 	449, 439, 0, 408, 451, 381, 397, 459, 399, 400,
 	430, 365, 416, 154, 394, 92, 384, 358, 391, 359,
 	382, 410, 116, 380, 441, 419, 130, 457, 133, 424,
 	0, 176, 142, 0, 0, 412, 443, 414, 436, 407,
-	431, 372, 423, 452, 395, 427, 453, 0, 0, 650,
-	352, 0, 905, 906, 0, 0, 0, 0, 0, 105,
+	431, 372, 423, 452, 395, 427, 453, 0, 0, 0,
+	352, 0, 0, 0, 0, 0, 0, 0, 0, 105,
 	0, 426, 448, 393, 460, 429, 357, 425, 0, 363,
-	366, 458, 446, 388, 389, 1695, 0, 0, 0, 0,
+	366, 458, 446, 388, 389, 0, 0, 0, 0, 0,
 	0, 0, 411, 415, 433, 404, 0, 0, 0, 0,
-	0, 0, 0, 0, 385, 0, 422, 0, 0, 0,
+	0, 0, 1218, 0, 385, 0, 422, 0, 0, 0,
 	369, 364, 0, 409, 0, 0, 0, 371, 0, 386,
 	434, 0, 354, 438, 444, 406, 203, 447, 403, 402,
 	161, 0, 108, 0, 182, 120, 396, 131, 432, 450,
@@ -1122,7 +1214,7 @@ var yyAct = [...]int{
 	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
 	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
 	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 87, 97, 189, 139, 137,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
 	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
 	146, 0, 150, 123, 0, 0, 360, 0, 177, 196,
 	214, 215, 361, 379, 445, 206, 207, 208, 209, 0,
@@ -1131,471 +1223,914 @@ var yyAct = [...]int{
 	418, 454, 455, 456, 435, 370, 0, 376, 377, 0,
 	440, 125, 420, 91, 99, 132, 210, 211, 0, 163,
 	118, 197, 398, 356, 401, 0, 0, 0, 0, 0,
-	0, 0, 367, 368, 170, 405, 0, 104, 0, 0,
-	0, 0, 0, 0, 0, 0, 844, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 449, 439, 0,
-	408, 451, 381, 397, 459, 399, 400, 430, 365, 416,
-	154, 394, 92, 384, 358, 391, 359, 382, 410, 116,
-	380, 441, 419, 130, 457, 133, 424, 0, 176, 142,
-	0, 0, 412, 443, 414, 436, 407, 431, 372, 423,
-	452, 395, 427, 453, 0, 0, 0, 352, 0, 905,
-	906, 0, 0, 0, 0, 0, 105, 0, 426, 448,
-	393, 460, 429, 357, 425, 0, 363, 366, 458, 446,
-	388, 389, 1097, 0, 0, 0, 0, 0, 0, 411,
-	415, 433, 404, 0, 0, 0, 0, 0, 0, 0,
-	0, 385, 0, 422, 0, 0, 0, 369, 364, 0,
-	409, 0, 0, 0, 371, 1675, 386, 434, 0, 354,
-	438, 444, 406, 203, 447, 403, 402, 161, 87, 108,
-	0, 182, 120, 396, 131, 432, 450, 413, 442, 383,
-	392, 110, 390, 168, 155, 194, 421, 156, 166, 134,
+	0, 0, 367, 368, 170, 405, 0, 104, 449, 439,
+	0, 408, 451, 381, 397, 459, 399, 400, 430, 365,
+	416, 154, 394, 92, 384, 358, 391, 359, 382, 410,
+	116, 380, 441, 419, 130, 457, 133, 424, 0, 176,
+	142, 0, 0, 412, 443, 414, 436, 407, 431, 372,
+	423, 452, 395, 427, 453, 50, 0, 0, 352, 0,
+	0, 0, 0, 0, 0, 0, 0, 105, 0, 426,
+	448, 393, 460, 429, 357, 425, 0, 363, 366, 458,
+	446, 388, 389, 0, 0, 0, 0, 0, 0, 0,
+	411, 415, 433, 404, 0, 0, 0, 0, 0, 0,
+	0, 0, 385, 0, 422, 0, 0, 0, 369, 364,
+	0, 409, 0, 0, 0, 371, 0, 386, 434, 0,
+	354, 438, 444, 406, 203, 447, 403, 402, 161, 0,
+	108, 0, 182, 120, 396, 131, 432, 450, 413, 442,
+	383, 392, 110, 390, 168, 155, 194, 421, 156, 166,
+	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
+	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
+	219, 220, 221, 222, 362, 355, 387, 437, 93, 183,
+	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
+	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
+	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
+	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
+	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
+	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
+	150, 123, 0, 0, 360, 0, 177, 196, 214, 215,
+	361, 379, 445, 206, 207, 208, 209, 0, 0, 0,
+	147, 103, 124, 173, 128, 135, 164, 212, 428, 169,
+	107, 195, 175, 375, 378, 373, 374, 417, 418, 454,
+	455, 456, 435, 370, 0, 376, 377, 0, 440, 125,
+	420, 91, 99, 132, 210, 211, 0, 163, 118, 197,
+	398, 356, 401, 0, 0, 0, 0, 0, 0, 0,
+	367, 368, 170, 405, 0, 104, 449, 439, 0, 408,
+	451, 381, 397, 459, 399, 400, 430, 365, 416, 154,
+	394, 92, 384, 358, 391, 359, 382, 410, 116, 380,
+	441, 419, 130, 457, 133, 424, 0, 176, 142, 0,
+	0, 412, 443, 414, 436, 407, 431, 372, 423, 452,
+	395, 427, 453, 0, 0, 0, 272, 0, 0, 0,
+	0, 0, 0, 0, 0, 105, 0, 426, 448, 393,
+	460, 429, 357, 425, 0, 363, 366, 458, 446, 388,
+	389, 0, 0, 0, 0, 0, 0, 0, 411, 415,
+	433, 404, 0, 0, 0, 0, 0, 0, 794, 0,
+	385, 0, 422, 0, 0, 0, 369, 364, 0, 409,
+	0, 0, 0, 371, 0, 386, 434, 0, 354, 438,
+	444, 406, 203, 447, 403, 402, 161, 0, 108, 0,
+	182, 120, 396, 131, 432, 450, 413, 442, 383, 392,
+	110, 390, 168, 155, 194, 421, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 362, 355, 387, 437, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 360, 0, 177, 196, 214, 215, 361, 379,
+	445, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 428, 169, 107, 195,
+	175, 375, 378, 373, 374, 417, 418, 454, 455, 456,
+	435, 370, 0, 376, 377, 0, 440, 125, 420, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 398, 356,
+	401, 0, 0, 0, 0, 0, 0, 0, 367, 368,
+	170, 405, 0, 104, 449, 439, 0, 408, 451, 381,
+	397, 459, 399, 400, 430, 365, 416, 154, 394, 92,
+	384, 358, 391, 359, 382, 410, 116, 380, 441, 419,
+	130, 457, 133, 424, 0, 176, 142, 0, 0, 412,
+	443, 414, 436, 407, 431, 372, 423, 452, 395, 427,
+	453, 0, 0, 0, 352, 0, 0, 0, 0, 0,
+	0, 0, 0, 105, 0, 426, 448, 393, 460, 429,
+	357, 425, 0, 363, 366, 458, 446, 388, 389, 0,
+	0, 0, 0, 0, 0, 0, 411, 415, 433, 404,
+	0, 0, 0, 0, 0, 0, 0, 0, 385, 0,
+	422, 0, 0, 0, 369, 364, 0, 409, 0, 0,
+	0, 371, 0, 386, 434, 0, 354, 438, 444, 406,
+	203, 447, 403, 402, 161, 0, 108, 0, 182, 120,
+	396, 131, 432, 450, 413, 442, 383, 392, 110, 390,
+	168, 155, 194, 421, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	362, 355, 387, 437, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	360, 0, 177, 196, 214, 215, 361, 379, 445, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 428, 169, 107, 195, 175, 375,
+	378, 373, 374, 417, 418, 454, 455, 456, 435, 370,
+	0, 376, 377, 0, 440, 125, 420, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 398, 356, 401, 0,
+	0, 0, 0, 0, 0, 0, 367, 368, 170, 405,
+	0, 104, 449, 439, 0, 408, 451, 381, 397, 459,
+	399, 400, 430, 365, 416, 154, 394, 92, 384, 358,
+	391, 359, 382, 410, 116, 380, 441, 419, 130, 457,
+	133, 424, 0, 176, 142, 0, 0, 412, 443, 414,
+	436, 407, 431, 372, 423, 452, 395, 427, 453, 0,
+	0, 0, 272, 0, 0, 0, 0, 0, 0, 0,
+	0, 105, 0, 426, 448, 393, 460, 429, 357, 425,
+	0, 363, 366, 458, 446, 388, 389, 0, 0, 0,
+	0, 0, 0, 0, 411, 415, 433, 404, 0, 0,
+	0, 0, 0, 0, 0, 0, 385, 0, 422, 0,
+	0, 0, 369, 364, 0, 409, 0, 0, 0, 371,
+	0, 386, 434, 0, 354, 438, 444, 406, 203, 447,
+	403, 402, 161, 0, 108, 0, 182, 120, 396, 131,
+	432, 450, 413, 442, 383, 392, 110, 390, 168, 155,
+	194, 421, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 362, 355,
+	387, 437, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 360, 0,
+	177, 196, 214, 215, 361, 379, 445, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 428, 169, 107, 195, 175, 375, 378, 373,
+	374, 417, 418, 454, 455, 456, 435, 370, 0, 376,
+	377, 0, 440, 125, 420, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 398, 356, 401, 0, 0, 0,
+	0, 0, 0, 0, 367, 368, 170, 405, 0, 104,
+	449, 439, 0, 408, 451, 381, 397, 459, 399, 400,
+	430, 365, 416, 154, 394, 92, 384, 358, 391, 359,
+	382, 410, 116, 380, 441, 419, 130, 457, 133, 424,
+	0, 176, 142, 0, 0, 412, 443, 414, 436, 407,
+	431, 372, 423, 452, 395, 427, 453, 0, 0, 0,
+	352, 0, 0, 0, 0, 0, 0, 0, 0, 105,
+	0, 426, 448, 393, 460, 429, 357, 425, 0, 363,
+	366, 458, 446, 388, 389, 0, 0, 0, 0, 0,
+	0, 0, 411, 415, 433, 404, 0, 0, 0, 0,
+	0, 0, 0, 0, 385, 0, 422, 0, 0, 0,
+	369, 364, 0, 409, 0, 0, 0, 371, 0, 386,
+	434, 0, 354, 438, 444, 406, 203, 447, 403, 402,
+	161, 0, 108, 0, 182, 120, 396, 131, 432, 450,
+	413, 442, 383, 392, 110, 390, 168, 155, 194, 421,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 362, 355, 387, 437,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 350, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 360, 0, 177, 196,
+	214, 215, 361, 379, 445, 206, 207, 208, 209, 0,
+	0, 0, 351, 349, 124, 173, 128, 135, 164, 212,
+	428, 169, 107, 195, 175, 375, 378, 373, 374, 417,
+	418, 454, 455, 456, 435, 370, 0, 376, 377, 0,
+	440, 125, 420, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 398, 356, 401, 0, 0, 0, 0, 0,
+	0, 0, 367, 368, 170, 405, 0, 104, 449, 439,
+	0, 408, 451, 381, 397, 459, 399, 400, 430, 365,
+	416, 154, 394, 92, 384, 358, 391, 359, 382, 410,
+	116, 380, 441, 419, 130, 457, 133, 424, 0, 176,
+	142, 0, 0, 412, 443, 414, 436, 407, 431, 372,
+	423, 452, 395, 427, 453, 0, 0, 0, 88, 0,
+	0, 0, 0, 0, 0, 0, 0, 105, 0, 426,
+	448, 393, 460, 429, 357, 425, 0, 363, 366, 458,
+	446, 388, 389, 0, 0, 0, 0, 0, 0, 0,
+	411, 415, 433, 404, 0, 0, 0, 0, 0, 0,
+	0, 0, 385, 0, 422, 0, 0, 0, 369, 364,
+	0, 409, 0, 0, 0, 371, 0, 386, 434, 0,
+	354, 438, 444, 406, 203, 447, 403, 402, 161, 0,
+	108, 0, 182, 120, 396, 131, 432, 450, 413, 442,
+	383, 392, 110, 390, 168, 155, 194, 421, 156, 166,
+	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
+	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
+	219, 220, 221, 222, 362, 355, 387, 437, 93, 183,
+	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
+	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
+	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
+	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
+	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
+	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
+	150, 123, 0, 0, 360, 0, 177, 196, 214, 215,
+	361, 379, 445, 206, 207, 208, 209, 0, 0, 0,
+	147, 103, 124, 173, 128, 135, 164, 212, 428, 169,
+	107, 195, 175, 375, 378, 373, 374, 417, 418, 454,
+	455, 456, 435, 370, 0, 376, 377, 0, 440, 125,
+	420, 91, 99, 132, 210, 211, 0, 163, 118, 197,
+	398, 356, 401, 0, 0, 0, 0, 0, 0, 0,
+	367, 368, 170, 405, 0, 104, 449, 439, 0, 408,
+	451, 381, 397, 459, 399, 400, 430, 365, 416, 154,
+	394, 92, 384, 358, 391, 359, 382, 410, 116, 380,
+	441, 419, 130, 457, 133, 424, 0, 176, 142, 0,
+	0, 412, 443, 414, 436, 407, 431, 372, 423, 452,
+	395, 427, 453, 0, 0, 0, 352, 0, 0, 0,
+	0, 0, 0, 0, 0, 105, 0, 426, 448, 393,
+	460, 429, 357, 425, 0, 363, 366, 458, 446, 388,
+	389, 0, 0, 0, 0, 0, 0, 0, 411, 415,
+	433, 404, 0, 0, 0, 0, 0, 0, 0, 0,
+	385, 0, 422, 0, 0, 0, 369, 364, 0, 409,
+	0, 0, 0, 371, 0, 386, 434, 0, 354, 438,
+	444, 406, 203, 447, 403, 402, 161, 0, 108, 0,
+	182, 120, 396, 131, 432, 450, 413, 442, 383, 392,
+	110, 390, 168, 155, 194, 421, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 362, 355, 387, 437, 93, 183, 660, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 350, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 360, 0, 177, 196, 214, 215, 361, 379,
+	445, 206, 207, 208, 209, 0, 0, 0, 351, 349,
+	124, 173, 128, 135, 164, 212, 428, 169, 107, 195,
+	175, 375, 378, 373, 374, 417, 418, 454, 455, 456,
+	435, 370, 0, 376, 377, 0, 440, 125, 420, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 398, 356,
+	401, 0, 0, 0, 0, 0, 0, 0, 367, 368,
+	170, 405, 0, 104, 449, 439, 0, 408, 451, 381,
+	397, 459, 399, 400, 430, 365, 416, 154, 394, 92,
+	384, 358, 391, 359, 382, 410, 116, 380, 441, 419,
+	130, 457, 133, 424, 0, 176, 142, 0, 0, 412,
+	443, 414, 436, 407, 431, 372, 423, 452, 395, 427,
+	453, 0, 0, 0, 352, 0, 0, 0, 0, 0,
+	0, 0, 0, 105, 0, 426, 448, 393, 460, 429,
+	357, 425, 0, 363, 366, 458, 446, 388, 389, 0,
+	0, 0, 0, 0, 0, 0, 411, 415, 433, 404,
+	0, 0, 0, 0, 0, 0, 0, 0, 385, 0,
+	422, 0, 0, 0, 369, 364, 0, 409, 0, 0,
+	0, 371, 0, 386, 434, 0, 354, 438, 444, 406,
+	203, 447, 403, 402, 161, 0, 108, 0, 182, 120,
+	396, 131, 432, 450, 413, 442, 383, 392, 110, 390,
+	168, 155, 194, 421, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	362, 355, 387, 437, 93, 183, 341, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 350,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	360, 0, 177, 196, 214, 215, 361, 379, 445, 206,
+	207, 208, 209, 0, 0, 0, 351, 349, 344, 343,
+	128, 135, 164, 212, 428, 169, 107, 195, 175, 375,
+	378, 373, 374, 417, 418, 454, 455, 456, 435, 370,
+	0, 376, 377, 0, 440, 125, 420, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 398, 356, 401, 0,
+	0, 0, 0, 0, 0, 0, 367, 368, 170, 405,
+	154, 104, 92, 831, 0, 274, 0, 0, 0, 116,
+	271, 0, 0, 130, 313, 133, 0, 0, 176, 142,
+	0, 0, 0, 0, 304, 305, 0, 0, 0, 0,
+	0, 0, 0, 0, 50, 0, 0, 272, 292, 291,
+	294, 295, 296, 297, 0, 0, 105, 293, 298, 299,
+	300, 0, 0, 0, 269, 285, 0, 312, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 282, 283, 265,
+	0, 0, 0, 325, 0, 284, 0, 0, 280, 281,
+	286, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 203, 0, 0, 323, 161, 0, 108,
+	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
+	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
 	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
 	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 362, 355, 387, 437, 93, 183, 192,
+	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
 	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
 	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
 	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
 	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
 	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
 	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 360, 0, 177, 196, 214, 215, 361,
-	379, 445, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 428, 169, 107,
-	195, 175, 375, 378, 373, 374, 417, 418, 454, 455,
-	456, 435, 370, 0, 376, 377, 0, 440, 125, 420,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 398,
-	356, 401, 0, 0, 0, 0, 0, 0, 0, 367,
-	368, 170, 405, 0, 104, 449, 439, 0, 408, 451,
-	381, 397, 459, 399, 400, 430, 365, 416, 154, 394,
-	92, 384, 358, 391, 359, 382, 410, 116, 380, 441,
-	419, 130, 457, 133, 424, 0, 176, 142, 0, 0,
-	412, 443, 414, 436, 407, 431, 372, 423, 452, 395,
-	427, 453, 0, 0, 0, 352, 0, 0, 0, 0,
-	0, 0, 0, 0, 105, 0, 426, 448, 393, 460,
-	429, 357, 425, 0, 363, 366, 458, 446, 388, 389,
-	0, 0, 0, 0, 0, 0, 0, 411, 415, 433,
-	404, 0, 0, 0, 0, 0, 0, 1217, 0, 385,
-	0, 422, 0, 0, 0, 369, 364, 0, 409, 0,
-	0, 0, 371, 0, 386, 434, 0, 354, 438, 444,
-	406, 203, 447, 403, 402, 161, 0, 108, 0, 182,
-	120, 396, 131, 432, 450, 413, 442, 383, 392, 110,
-	390, 168, 155, 194, 421, 156, 166, 134, 186, 162,
+	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
+	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
+	195, 175, 314, 324, 320, 321, 318, 319, 317, 316,
+	315, 326, 306, 307, 308, 309, 311, 0, 125, 310,
+	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
+	0, 0, 0, 0, 0, 0, 0, 154, 0, 92,
+	0, 170, 274, 322, 104, 0, 116, 271, 0, 0,
+	130, 313, 133, 0, 0, 176, 142, 0, 0, 0,
+	0, 304, 305, 0, 0, 0, 0, 0, 0, 0,
+	0, 50, 0, 510, 272, 292, 291, 294, 295, 296,
+	297, 0, 0, 105, 293, 298, 299, 300, 0, 0,
+	0, 269, 285, 0, 312, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 282, 283, 0, 0, 0, 0,
+	325, 0, 284, 0, 0, 280, 281, 286, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	203, 0, 0, 323, 161, 0, 108, 0, 182, 120,
+	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
+	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 0, 169, 107, 195, 175, 314,
+	324, 320, 321, 318, 319, 317, 316, 315, 326, 306,
+	307, 308, 309, 311, 0, 125, 310, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 0, 0, 0, 0,
+	0, 0, 0, 0, 154, 0, 92, 0, 170, 274,
+	322, 104, 0, 116, 271, 0, 0, 130, 313, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 304, 305,
+	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
+	0, 272, 292, 291, 294, 295, 296, 297, 0, 0,
+	105, 293, 298, 299, 300, 0, 0, 0, 269, 285,
+	0, 312, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 282, 283, 265, 0, 0, 0, 325, 0, 284,
+	0, 0, 280, 281, 286, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	323, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 314, 324, 320, 321,
+	318, 319, 317, 316, 315, 326, 306, 307, 308, 309,
+	311, 0, 125, 310, 91, 99, 132, 210, 211, 23,
+	163, 118, 197, 0, 0, 0, 0, 0, 0, 0,
+	0, 154, 0, 92, 0, 170, 274, 322, 104, 0,
+	116, 271, 0, 0, 130, 313, 133, 0, 0, 176,
+	142, 0, 0, 0, 0, 304, 305, 0, 0, 0,
+	0, 0, 0, 0, 0, 50, 0, 0, 272, 292,
+	291, 294, 295, 296, 297, 0, 0, 105, 293, 298,
+	299, 300, 0, 0, 0, 269, 285, 0, 312, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 282, 283,
+	0, 0, 0, 0, 325, 0, 284, 0, 0, 280,
+	281, 286, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 203, 0, 0, 323, 161, 0,
+	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
+	0, 0, 110, 0, 168, 155, 194, 0, 156, 166,
+	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
+	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
+	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
+	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
+	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
+	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
+	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
+	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
+	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
+	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
+	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
+	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
+	107, 195, 175, 314, 324, 320, 321, 318, 319, 317,
+	316, 315, 326, 306, 307, 308, 309, 311, 0, 125,
+	310, 91, 99, 132, 210, 211, 0, 163, 118, 197,
+	0, 0, 0, 0, 0, 0, 0, 0, 154, 0,
+	92, 0, 170, 274, 322, 104, 0, 116, 271, 0,
+	0, 130, 313, 133, 0, 0, 176, 142, 0, 0,
+	0, 0, 304, 305, 0, 0, 0, 0, 0, 0,
+	0, 0, 50, 0, 0, 272, 292, 291, 294, 295,
+	296, 297, 0, 0, 105, 293, 298, 299, 300, 0,
+	0, 0, 269, 285, 0, 312, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 282, 283, 0, 0, 0,
+	0, 325, 0, 284, 0, 0, 280, 281, 286, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 203, 0, 0, 323, 161, 0, 108, 0, 182,
+	120, 0, 131, 0, 0, 0, 0, 0, 0, 110,
+	0, 168, 155, 194, 0, 156, 166, 134, 186, 162,
 	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
 	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
-	222, 362, 355, 387, 437, 93, 183, 192, 106, 172,
+	222, 0, 0, 0, 0, 93, 183, 192, 106, 172,
 	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
 	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
 	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
 	102, 199, 148, 153, 151, 198, 185, 191, 141, 138,
 	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
 	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
-	0, 360, 0, 177, 196, 214, 215, 361, 379, 445,
+	0, 0, 0, 177, 196, 214, 215, 0, 0, 0,
 	206, 207, 208, 209, 0, 0, 0, 147, 103, 124,
-	173, 128, 135, 164, 212, 428, 169, 107, 195, 175,
-	375, 378, 373, 374, 417, 418, 454, 455, 456, 435,
-	370, 0, 376, 377, 0, 440, 125, 420, 91, 99,
-	132, 210, 211, 0, 163, 118, 197, 398, 356, 401,
-	0, 0, 0, 0, 0, 0, 0, 367, 368, 170,
-	405, 0, 104, 449, 439, 0, 408, 451, 381, 397,
-	459, 399, 400, 430, 365, 416, 154, 394, 92, 384,
-	358, 391, 359, 382, 410, 116, 380, 441, 419, 130,
-	457, 133, 424, 0, 176, 142, 0, 0, 412, 443,
-	414, 436, 407, 431, 372, 423, 452, 395, 427, 453,
-	50, 0, 0, 352, 0, 0, 0, 0, 0, 0,
-	0, 0, 105, 0, 426, 448, 393, 460, 429, 357,
-	425, 0, 363, 366, 458, 446, 388, 389, 0, 0,
-	0, 0, 0, 0, 0, 411, 415, 433, 404, 0,
-	0, 0, 0, 0, 0, 0, 0, 385, 0, 422,
-	0, 0, 0, 369, 364, 0, 409, 0, 0, 0,
-	371, 0, 386, 434, 0, 354, 438, 444, 406, 203,
-	447, 403, 402, 161, 0, 108, 0, 182, 120, 396,
-	131, 432, 450, 413, 442, 383, 392, 110, 390, 168,
-	155, 194, 421, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 362,
-	355, 387, 437, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 360,
-	0, 177, 196, 214, 215, 361, 379, 445, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 428, 169, 107, 195, 175, 375, 378,
-	373, 374, 417, 418, 454, 455, 456, 435, 370, 0,
-	376, 377, 0, 440, 125, 420, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 398, 356, 401, 0, 0,
-	0, 0, 0, 0, 0, 367, 368, 170, 405, 0,
-	104, 449, 439, 0, 408, 451, 381, 397, 459, 399,
-	400, 430, 365, 416, 154, 394, 92, 384, 358, 391,
-	359, 382, 410, 116, 380, 441, 419, 130, 457, 133,
-	424, 0, 176, 142, 0, 0, 412, 443, 414, 436,
-	407, 431, 372, 423, 452, 395, 427, 453, 0, 0,
-	0, 272, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 426, 448, 393, 460, 429, 357, 425, 0,
-	363, 366, 458, 446, 388, 389, 0, 0, 0, 0,
-	0, 0, 0, 411, 415, 433, 404, 0, 0, 0,
-	0, 0, 0, 794, 0, 385, 0, 422, 0, 0,
-	0, 369, 364, 0, 409, 0, 0, 0, 371, 0,
-	386, 434, 0, 354, 438, 444, 406, 203, 447, 403,
-	402, 161, 0, 108, 0, 182, 120, 396, 131, 432,
-	450, 413, 442, 383, 392, 110, 390, 168, 155, 194,
-	421, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	173, 128, 135, 164, 212, 0, 169, 107, 195, 175,
+	314, 324, 320, 321, 318, 319, 317, 316, 315, 326,
+	306, 307, 308, 309, 311, 0, 125, 310, 91, 99,
+	132, 210, 211, 0, 163, 118, 197, 0, 0, 0,
+	0, 154, 0, 92, 0, 0, 0, 0, 0, 170,
+	116, 322, 104, 0, 130, 313, 133, 0, 0, 176,
+	142, 0, 0, 0, 0, 304, 305, 0, 0, 0,
+	0, 0, 0, 0, 0, 50, 0, 0, 272, 292,
+	291, 294, 295, 296, 297, 0, 0, 105, 293, 298,
+	299, 300, 0, 0, 0, 0, 285, 0, 312, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 282, 283,
+	0, 0, 0, 0, 325, 0, 284, 0, 0, 280,
+	281, 286, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 203, 0, 0, 323, 161, 0,
+	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
+	0, 0, 110, 0, 168, 155, 194, 1700, 156, 166,
+	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
+	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
+	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
+	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
+	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
+	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
+	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
+	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
+	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
+	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
+	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
+	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
+	107, 195, 175, 314, 324, 320, 321, 318, 319, 317,
+	316, 315, 326, 306, 307, 308, 309, 311, 0, 125,
+	310, 91, 99, 132, 210, 211, 0, 163, 118, 197,
+	0, 0, 0, 0, 154, 0, 92, 0, 0, 0,
+	0, 0, 170, 116, 322, 104, 0, 130, 313, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 304, 305,
+	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
+	0, 272, 292, 291, 294, 295, 296, 297, 0, 0,
+	105, 293, 298, 299, 300, 0, 0, 0, 0, 285,
+	0, 312, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 282, 283, 0, 0, 0, 0, 325, 0, 284,
+	0, 0, 280, 281, 286, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	323, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
 	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 362, 355, 387,
-	437, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
 	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
 	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
 	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
 	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
 	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 360, 0, 177,
-	196, 214, 215, 361, 379, 445, 206, 207, 208, 209,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
 	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 428, 169, 107, 195, 175, 375, 378, 373, 374,
-	417, 418, 454, 455, 456, 435, 370, 0, 376, 377,
-	0, 440, 125, 420, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 398, 356, 401, 0, 0, 0, 0,
-	0, 0, 0, 367, 368, 170, 405, 0, 104, 449,
-	439, 0, 408, 451, 381, 397, 459, 399, 400, 430,
-	365, 416, 154, 394, 92, 384, 358, 391, 359, 382,
-	410, 116, 380, 441, 419, 130, 457, 133, 424, 0,
-	176, 142, 0, 0, 412, 443, 414, 436, 407, 431,
-	372, 423, 452, 395, 427, 453, 0, 0, 0, 352,
-	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
-	426, 448, 393, 460, 429, 357, 425, 0, 363, 366,
-	458, 446, 388, 389, 0, 0, 0, 0, 0, 0,
-	0, 411, 415, 433, 404, 0, 0, 0, 0, 0,
-	0, 0, 0, 385, 0, 422, 0, 0, 0, 369,
-	364, 0, 409, 0, 0, 0, 371, 0, 386, 434,
-	0, 354, 438, 444, 406, 203, 447, 403, 402, 161,
-	0, 108, 0, 182, 120, 396, 131, 432, 450, 413,
-	442, 383, 392, 110, 390, 168, 155, 194, 421, 156,
-	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
-	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
-	218, 219, 220, 221, 222, 362, 355, 387, 437, 93,
-	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
-	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
-	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
-	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
-	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
-	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
-	0, 150, 123, 0, 0, 360, 0, 177, 196, 214,
-	215, 361, 379, 445, 206, 207, 208, 209, 0, 0,
-	0, 147, 103, 124, 173, 128, 135, 164, 212, 428,
-	169, 107, 195, 175, 375, 378, 373, 374, 417, 418,
-	454, 455, 456, 435, 370, 0, 376, 377, 0, 440,
-	125, 420, 91, 99, 132, 210, 211, 0, 163, 118,
-	197, 398, 356, 401, 0, 0, 0, 0, 0, 0,
-	0, 367, 368, 170, 405, 0, 104, 449, 439, 0,
-	408, 451, 381, 397, 459, 399, 400, 430, 365, 416,
-	154, 394, 92, 384, 358, 391, 359, 382, 410, 116,
-	380, 441, 419, 130, 457, 133, 424, 0, 176, 142,
-	0, 0, 412, 443, 414, 436, 407, 431, 372, 423,
-	452, 395, 427, 453, 0, 0, 0, 272, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 426, 448,
-	393, 460, 429, 357, 425, 0, 363, 366, 458, 446,
-	388, 389, 0, 0, 0, 0, 0, 0, 0, 411,
-	415, 433, 404, 0, 0, 0, 0, 0, 0, 0,
-	0, 385, 0, 422, 0, 0, 0, 369, 364, 0,
-	409, 0, 0, 0, 371, 0, 386, 434, 0, 354,
-	438, 444, 406, 203, 447, 403, 402, 161, 0, 108,
-	0, 182, 120, 396, 131, 432, 450, 413, 442, 383,
-	392, 110, 390, 168, 155, 194, 421, 156, 166, 134,
+	212, 0, 169, 107, 195, 175, 314, 324, 320, 321,
+	318, 319, 317, 316, 315, 326, 306, 307, 308, 309,
+	311, 0, 125, 310, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 0, 0, 0, 154, 0, 92,
+	0, 0, 0, 0, 0, 170, 116, 322, 104, 0,
+	130, 0, 133, 0, 0, 176, 142, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 352, 0, 0, 0, 0, 0,
+	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	544, 543, 553, 554, 546, 547, 548, 549, 550, 551,
+	552, 545, 0, 0, 555, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
+	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
+	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 0, 0, 0, 0,
+	154, 0, 92, 0, 532, 0, 0, 0, 170, 116,
+	556, 104, 0, 130, 0, 133, 0, 0, 176, 142,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 352, 0, 534,
+	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	0, 0, 529, 528, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 530,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
+	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
+	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
 	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
 	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 362, 355, 387, 437, 93, 183, 192,
+	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
 	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
 	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
 	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
 	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
 	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
 	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 360, 0, 177, 196, 214, 215, 361,
-	379, 445, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 428, 169, 107,
-	195, 175, 375, 378, 373, 374, 417, 418, 454, 455,
-	456, 435, 370, 0, 376, 377, 0, 440, 125, 420,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 398,
-	356, 401, 0, 0, 0, 0, 0, 0, 0, 367,
-	368, 170, 405, 0, 104, 449, 439, 0, 408, 451,
-	381, 397, 459, 399, 400, 430, 365, 416, 154, 394,
-	92, 384, 358, 391, 359, 382, 410, 116, 380, 441,
-	419, 130, 457, 133, 424, 0, 176, 142, 0, 0,
-	412, 443, 414, 436, 407, 431, 372, 423, 452, 395,
-	427, 453, 0, 0, 0, 352, 0, 0, 0, 0,
-	0, 0, 0, 0, 105, 0, 426, 448, 393, 460,
-	429, 357, 425, 0, 363, 366, 458, 446, 388, 389,
-	0, 0, 0, 0, 0, 0, 0, 411, 415, 433,
-	404, 0, 0, 0, 0, 0, 0, 0, 0, 385,
-	0, 422, 0, 0, 0, 369, 364, 0, 409, 0,
-	0, 0, 371, 0, 386, 434, 0, 354, 438, 444,
-	406, 203, 447, 403, 402, 161, 0, 108, 0, 182,
-	120, 396, 131, 432, 450, 413, 442, 383, 392, 110,
-	390, 168, 155, 194, 421, 156, 166, 134, 186, 162,
-	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
-	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
-	222, 362, 355, 387, 437, 93, 183, 192, 106, 172,
-	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
-	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
-	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
-	350, 199, 148, 153, 151, 198, 185, 191, 141, 138,
-	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
-	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
-	0, 360, 0, 177, 196, 214, 215, 361, 379, 445,
-	206, 207, 208, 209, 0, 0, 0, 351, 349, 124,
-	173, 128, 135, 164, 212, 428, 169, 107, 195, 175,
-	375, 378, 373, 374, 417, 418, 454, 455, 456, 435,
-	370, 0, 376, 377, 0, 440, 125, 420, 91, 99,
-	132, 210, 211, 0, 163, 118, 197, 398, 356, 401,
-	0, 0, 0, 0, 0, 0, 0, 367, 368, 170,
-	405, 0, 104, 449, 439, 0, 408, 451, 381, 397,
-	459, 399, 400, 430, 365, 416, 154, 394, 92, 384,
-	358, 391, 359, 382, 410, 116, 380, 441, 419, 130,
-	457, 133, 424, 0, 176, 142, 0, 0, 412, 443,
-	414, 436, 407, 431, 372, 423, 452, 395, 427, 453,
-	0, 0, 0, 88, 0, 0, 0, 0, 0, 0,
-	0, 0, 105, 0, 426, 448, 393, 460, 429, 357,
-	425, 0, 363, 366, 458, 446, 388, 389, 0, 0,
-	0, 0, 0, 0, 0, 411, 415, 433, 404, 0,
-	0, 0, 0, 0, 0, 0, 0, 385, 0, 422,
-	0, 0, 0, 369, 364, 0, 409, 0, 0, 0,
-	371, 0, 386, 434, 0, 354, 438, 444, 406, 203,
-	447, 403, 402, 161, 0, 108, 0, 182, 120, 396,
-	131, 432, 450, 413, 442, 383, 392, 110, 390, 168,
-	155, 194, 421, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 362,
-	355, 387, 437, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 360,
-	0, 177, 196, 214, 215, 361, 379, 445, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 428, 169, 107, 195, 175, 375, 378,
-	373, 374, 417, 418, 454, 455, 456, 435, 370, 0,
-	376, 377, 0, 440, 125, 420, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 398, 356, 401, 0, 0,
-	0, 0, 0, 0, 0, 367, 368, 170, 405, 0,
-	104, 449, 439, 0, 408, 451, 381, 397, 459, 399,
-	400, 430, 365, 416, 154, 394, 92, 384, 358, 391,
-	359, 382, 410, 116, 380, 441, 419, 130, 457, 133,
-	424, 0, 176, 142, 0, 0, 412, 443, 414, 436,
-	407, 431, 372, 423, 452, 395, 427, 453, 0, 0,
+	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
+	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
+	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
+	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
+	154, 0, 92, 0, 649, 0, 0, 0, 0, 116,
+	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 88, 0, 651,
+	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
+	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
+	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
+	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
+	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
+	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
+	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
+	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
+	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
+	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
+	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
+	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
+	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
+	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
+	91, 99, 132, 210, 211, 23, 163, 118, 197, 0,
+	0, 0, 0, 0, 0, 0, 0, 154, 0, 92,
+	0, 170, 0, 0, 104, 0, 116, 0, 0, 0,
+	130, 0, 133, 0, 0, 176, 142, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 50, 0, 0, 352, 0, 0, 0, 0, 0,
+	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
+	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
+	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
+	210, 211, 23, 163, 118, 197, 0, 0, 0, 0,
+	0, 0, 0, 0, 154, 0, 92, 0, 170, 0,
+	0, 104, 0, 116, 0, 0, 0, 130, 0, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
+	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
+	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 352, 0, 0, 781, 0, 0, 782, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
+	0, 0, 0, 116, 669, 170, 0, 130, 104, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 352, 0, 668, 0, 0, 0, 0, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 154, 0, 92, 0, 649, 0,
+	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 88, 0, 651, 0, 0, 0, 0, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 647, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
+	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 352, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 426, 448, 393, 460, 429, 357, 425, 0,
-	363, 366, 458, 446, 388, 389, 0, 0, 0, 0,
-	0, 0, 0, 411, 415, 433, 404, 0, 0, 0,
-	0, 0, 0, 0, 0, 385, 0, 422, 0, 0,
-	0, 369, 364, 0, 409, 0, 0, 0, 371, 0,
-	386, 434, 0, 354, 438, 444, 406, 203, 447, 403,
-	402, 161, 0, 108, 0, 182, 120, 396, 131, 432,
-	450, 413, 442, 383, 392, 110, 390, 168, 155, 194,
-	421, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 1392, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
 	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 362, 355, 387,
-	437, 93, 183, 660, 106, 172, 96, 190, 179, 181,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
 	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
 	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 350, 199, 148, 153,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
 	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
 	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 360, 0, 177,
-	196, 214, 215, 361, 379, 445, 206, 207, 208, 209,
-	0, 0, 0, 351, 349, 124, 173, 128, 135, 164,
-	212, 428, 169, 107, 195, 175, 375, 378, 373, 374,
-	417, 418, 454, 455, 456, 435, 370, 0, 376, 377,
-	0, 440, 125, 420, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 398, 356, 401, 0, 0, 0, 0,
-	0, 0, 0, 367, 368, 170, 405, 0, 104, 449,
-	439, 0, 408, 451, 381, 397, 459, 399, 400, 430,
-	365, 416, 154, 394, 92, 384, 358, 391, 359, 382,
-	410, 116, 380, 441, 419, 130, 457, 133, 424, 0,
-	176, 142, 0, 0, 412, 443, 414, 436, 407, 431,
-	372, 423, 452, 395, 427, 453, 0, 0, 0, 352,
-	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
-	426, 448, 393, 460, 429, 357, 425, 0, 363, 366,
-	458, 446, 388, 389, 0, 0, 0, 0, 0, 0,
-	0, 411, 415, 433, 404, 0, 0, 0, 0, 0,
-	0, 0, 0, 385, 0, 422, 0, 0, 0, 369,
-	364, 0, 409, 0, 0, 0, 371, 0, 386, 434,
-	0, 354, 438, 444, 406, 203, 447, 403, 402, 161,
-	0, 108, 0, 182, 120, 396, 131, 432, 450, 413,
-	442, 383, 392, 110, 390, 168, 155, 194, 421, 156,
-	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
-	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
-	218, 219, 220, 221, 222, 362, 355, 387, 437, 93,
-	183, 341, 106, 172, 96, 190, 179, 181, 140, 126,
-	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
-	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
-	101, 200, 201, 98, 350, 199, 148, 153, 151, 198,
-	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
-	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
-	0, 150, 123, 0, 0, 360, 0, 177, 196, 214,
-	215, 361, 379, 445, 206, 207, 208, 209, 0, 0,
-	0, 351, 349, 344, 343, 128, 135, 164, 212, 428,
-	169, 107, 195, 175, 375, 378, 373, 374, 417, 418,
-	454, 455, 456, 435, 370, 0, 376, 377, 0, 440,
-	125, 420, 91, 99, 132, 210, 211, 0, 163, 118,
-	197, 398, 356, 401, 0, 0, 0, 0, 0, 0,
-	0, 367, 368, 170, 405, 154, 104, 92, 0, 0,
-	274, 0, 0, 0, 116, 271, 0, 0, 130, 313,
-	133, 0, 0, 176, 142, 0, 0, 0, 0, 304,
-	305, 0, 0, 0, 0, 0, 0, 895, 0, 50,
-	0, 0, 272, 292, 291, 294, 295, 296, 297, 0,
-	0, 105, 293, 298, 299, 300, 896, 0, 0, 269,
-	285, 0, 312, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 282, 283, 0, 0, 0, 0, 325, 0,
-	284, 0, 0, 280, 281, 286, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
-	0, 323, 161, 0, 108, 0, 182, 120, 0, 131,
-	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
-	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
-	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
-	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
-	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
-	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
-	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
-	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
-	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
-	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
-	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
-	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
-	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
-	164, 212, 0, 169, 107, 195, 175, 314, 324, 320,
-	321, 318, 319, 317, 316, 315, 326, 306, 307, 308,
-	309, 311, 0, 125, 310, 91, 99, 132, 210, 211,
-	0, 163, 118, 197, 0, 0, 0, 0, 0, 0,
-	0, 0, 154, 0, 92, 831, 170, 274, 322, 104,
-	0, 116, 271, 0, 0, 130, 313, 133, 0, 0,
-	176, 142, 0, 0, 0, 0, 304, 305, 0, 0,
-	0, 0, 0, 0, 0, 0, 50, 0, 0, 272,
-	292, 291, 294, 295, 296, 297, 0, 0, 105, 293,
-	298, 299, 300, 0, 0, 0, 269, 285, 0, 312,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 282,
-	283, 265, 0, 0, 0, 325, 0, 284, 0, 0,
-	280, 281, 286, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 203, 0, 0, 323, 161,
-	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
-	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
-	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
-	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
-	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
-	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
-	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
-	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
-	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
-	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
-	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
-	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
-	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
-	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
-	169, 107, 195, 175, 314, 324, 320, 321, 318, 319,
-	317, 316, 315, 326, 306, 307, 308, 309, 311, 0,
-	125, 310, 91, 99, 132, 210, 211, 0, 163, 118,
-	197, 0, 0, 0, 0, 0, 0, 0, 0, 154,
-	0, 92, 0, 170, 274, 322, 104, 0, 116, 271,
-	0, 0, 130, 313, 133, 0, 0, 176, 142, 0,
-	0, 0, 0, 304, 305, 0, 0, 0, 0, 0,
-	0, 0, 0, 50, 0, 510, 272, 292, 291, 294,
-	295, 296, 297, 0, 0, 105, 293, 298, 299, 300,
-	0, 0, 0, 269, 285, 0, 312, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 282, 283, 0, 0,
-	0, 0, 325, 0, 284, 0, 0, 280, 281, 286,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 203, 0, 0, 323, 161, 0, 108, 0,
-	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
-	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
-	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
-	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
-	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
-	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
-	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
-	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
-	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
-	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
-	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
-	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
-	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
-	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
-	175, 314, 324, 320, 321, 318, 319, 317, 316, 315,
-	326, 306, 307, 308, 309, 311, 0, 125, 310, 91,
-	99, 132, 210, 211, 0, 163, 118, 197, 0, 0,
-	0, 0, 0, 0, 0, 0, 154, 0, 92, 0,
-	170, 274, 322, 104, 0, 116, 271, 0, 0, 130,
-	313, 133, 0, 0, 176, 142, 0, 0, 0, 0,
-	304, 305, 0, 0, 0, 0, 0, 0, 0, 0,
-	50, 0, 0, 272, 292, 291, 294, 295, 296, 297,
-	0, 0, 105, 293, 298, 299, 300, 0, 0, 0,
-	269, 285, 0, 312, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 282, 283, 265, 0, 0, 0, 325,
-	0, 284, 0, 0, 280, 281, 286, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 323, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 314, 324,
-	320, 321, 318, 319, 317, 316, 315, 326, 306, 307,
-	308, 309, 311, 0, 125, 310, 91, 99, 132, 210,
-	211, 23, 163, 118, 197, 0, 0, 0, 0, 0,
-	0, 0, 0, 154, 0, 92, 0, 170, 274, 322,
-	104, 0, 116, 271, 0, 0, 130, 313, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 304, 305, 0,
-	0, 0, 0, 0, 0, 0, 0, 50, 0, 0,
-	272, 292, 291, 294, 295, 296, 297, 0, 0, 105,
-	293, 298, 299, 300, 0, 0, 0, 269, 285, 0,
-	312, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	282, 283, 0, 0, 0, 0, 325, 0, 284, 0,
-	0, 280, 281, 286, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 323,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 314, 324, 320, 321, 318,
-	319, 317, 316, 315, 326, 306, 307, 308, 309, 311,
-	0, 125, 310, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 0, 0, 0, 0, 0, 0, 0, 0,
-	154, 0, 92, 0, 170, 274, 322, 104, 0, 116,
-	271, 0, 0, 130, 313, 133, 0, 0, 176, 142,
-	0, 0, 0, 0, 304, 305, 0, 0, 0, 0,
-	0, 0, 0, 0, 50, 0, 0, 272, 292, 291,
-	294, 295, 296, 297, 0, 0, 105, 293, 298, 299,
-	300, 0, 0, 0, 269, 285, 0, 312, 0, 0,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 282, 283, 0,
-	0, 0, 0, 325, 0, 284, 0, 0, 280, 281,
-	286, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 323, 161, 0, 108,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
+	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
+	0, 0, 1675, 116, 0, 170, 0, 130, 104, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 352, 0, 0, 0, 0, 0, 0, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 1284, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
+	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
+	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
+	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 88, 0, 651, 0, 0, 0, 0, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
+	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 352, 0, 534, 0, 0, 0, 0, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
+	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 741, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
+	0, 0, 627, 116, 0, 170, 0, 130, 104, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 336, 0, 0, 0, 0, 0, 0,
+	154, 0, 92, 0, 0, 170, 0, 0, 104, 116,
+	0, 0, 0, 130, 0, 133, 0, 0, 176, 142,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 88, 0, 0,
+	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
 	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
 	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
 	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
@@ -1610,670 +2145,135 @@ var yyAct = [...]int{
 	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
 	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
 	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 314, 324, 320, 321, 318, 319, 317, 316,
-	315, 326, 306, 307, 308, 309, 311, 0, 125, 310,
+	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
 	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	0, 0, 0, 154, 0, 92, 0, 0, 0, 0,
-	0, 170, 116, 322, 104, 0, 130, 313, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 304, 305, 0,
-	0, 0, 0, 0, 0, 0, 0, 50, 0, 0,
-	272, 292, 291, 294, 295, 296, 297, 0, 0, 105,
-	293, 298, 299, 300, 0, 0, 0, 0, 285, 0,
-	312, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	282, 283, 0, 0, 0, 0, 325, 0, 284, 0,
-	0, 280, 281, 286, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 323,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 1699,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 314, 324, 320, 321, 318,
-	319, 317, 316, 315, 326, 306, 307, 308, 309, 311,
-	0, 125, 310, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 0, 0, 0, 0, 154, 0, 92, 0,
-	0, 0, 0, 0, 170, 116, 322, 104, 0, 130,
-	313, 133, 0, 0, 176, 142, 0, 0, 0, 0,
-	304, 305, 0, 0, 0, 0, 0, 0, 0, 0,
-	50, 0, 0, 272, 292, 291, 294, 295, 296, 297,
-	0, 0, 105, 293, 298, 299, 300, 0, 0, 0,
-	0, 285, 0, 312, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 282, 283, 0, 0, 0, 0, 325,
-	0, 284, 0, 0, 280, 281, 286, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 323, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 314, 324,
-	320, 321, 318, 319, 317, 316, 315, 326, 306, 307,
-	308, 309, 311, 0, 125, 310, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 0, 0, 0, 0, 154,
-	0, 92, 0, 0, 0, 0, 0, 170, 116, 322,
-	104, 0, 130, 0, 133, 0, 0, 176, 142, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 352, 0, 0, 0,
-	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 544, 543, 553, 554, 546, 547, 548, 549,
-	550, 551, 552, 545, 0, 0, 555, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
-	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
-	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
-	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
-	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
-	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
-	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
-	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
-	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
-	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
-	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
-	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
-	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
-	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
-	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
-	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
-	99, 132, 210, 211, 0, 163, 118, 197, 0, 0,
-	0, 0, 154, 0, 92, 0, 532, 0, 0, 0,
-	170, 116, 556, 104, 0, 130, 0, 133, 0, 0,
-	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 352,
-	0, 534, 0, 0, 0, 0, 0, 0, 105, 0,
-	0, 0, 0, 0, 529, 528, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 530, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 203, 0, 0, 0, 161,
-	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
-	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
-	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
-	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
-	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
-	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
-	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
-	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
-	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
-	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
-	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
-	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
-	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
-	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
-	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	125, 0, 91, 99, 132, 210, 211, 0, 163, 118,
-	197, 0, 154, 0, 92, 0, 649, 0, 0, 0,
-	0, 116, 0, 170, 0, 130, 104, 133, 0, 0,
-	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 88,
-	0, 651, 0, 0, 0, 0, 0, 0, 105, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 203, 0, 0, 0, 161,
-	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
-	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
-	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
-	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
-	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
-	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
-	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
-	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
-	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
-	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
-	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
-	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
-	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
-	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
-	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	125, 0, 91, 99, 132, 210, 211, 23, 163, 118,
-	197, 0, 0, 0, 0, 0, 0, 0, 0, 154,
-	0, 92, 0, 170, 0, 0, 104, 0, 116, 0,
-	0, 0, 130, 0, 133, 0, 0, 176, 142, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 50, 0, 0, 352, 0, 0, 0,
-	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
-	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
-	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
-	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
-	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
-	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
-	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
-	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
-	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
-	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
-	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
-	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
-	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
-	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
-	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
-	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
-	99, 132, 210, 211, 23, 163, 118, 197, 0, 0,
-	0, 0, 0, 0, 0, 0, 154, 0, 92, 0,
-	170, 0, 0, 104, 0, 116, 0, 0, 0, 130,
-	0, 133, 0, 0, 176, 142, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	50, 0, 0, 88, 0, 0, 0, 0, 0, 0,
-	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
-	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
-	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 352, 0, 0, 781, 0, 0, 782,
-	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
-	0, 0, 0, 0, 0, 116, 669, 170, 0, 130,
-	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 352, 0, 668, 0, 0, 0, 0,
-	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
-	649, 0, 0, 0, 0, 116, 0, 170, 0, 130,
-	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 88, 0, 651, 0, 0, 0, 0,
-	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 647, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
-	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
-	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
-	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 1391, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
-	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
-	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 88, 0, 0, 0, 0, 0, 0,
-	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
-	0, 0, 0, 0, 1674, 116, 0, 170, 0, 130,
-	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
-	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 1283, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
-	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
-	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	50, 0, 0, 88, 0, 0, 0, 0, 0, 0,
-	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
-	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
-	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 88, 0, 651, 0, 0, 0, 0,
-	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
-	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
-	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 352, 0, 534, 0, 0, 0, 0,
-	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
-	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
-	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 88, 0, 0, 0, 0, 0, 0,
-	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 741, 169, 107, 195, 175, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
-	0, 0, 0, 0, 627, 116, 0, 170, 0, 130,
-	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 88, 0, 0, 0, 0, 0, 0,
-	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 336, 0, 0, 0, 0,
-	0, 0, 154, 0, 92, 0, 0, 170, 0, 0,
-	104, 116, 0, 0, 0, 130, 0, 133, 0, 0,
-	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 88,
-	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 203, 0, 0, 0, 161,
-	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
-	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
-	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
-	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
-	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
-	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
-	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
-	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
-	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
-	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
-	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
-	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
-	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
-	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
-	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	125, 0, 91, 99, 132, 210, 211, 0, 163, 118,
-	197, 0, 154, 0, 92, 0, 0, 0, 0, 0,
-	0, 116, 0, 170, 0, 130, 104, 133, 0, 0,
-	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 88,
-	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 85, 0, 203, 0, 0, 0, 161,
-	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
-	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
-	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
-	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
-	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
-	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
-	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
-	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
-	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
-	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
-	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
-	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
-	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
-	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
-	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	125, 0, 91, 99, 132, 210, 211, 0, 163, 118,
-	197, 0, 154, 0, 92, 0, 0, 0, 0, 0,
-	0, 116, 0, 170, 0, 130, 104, 133, 0, 0,
-	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 352,
-	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 203, 0, 0, 0, 161,
-	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
-	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
-	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
-	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
-	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
-	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
-	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
-	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
-	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
-	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
-	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
-	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
-	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
-	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
-	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	125, 0, 91, 99, 132, 210, 211, 0, 163, 118,
-	197, 0, 154, 0, 92, 0, 0, 0, 0, 0,
-	0, 116, 0, 170, 0, 130, 104, 133, 0, 0,
-	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 88,
-	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 203, 0, 0, 0, 161,
-	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
-	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
-	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
-	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
-	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
-	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
-	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
-	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
-	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
-	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
-	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
-	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
-	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
-	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
-	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	125, 0, 91, 99, 132, 210, 211, 0, 163, 118,
-	197, 0, 154, 0, 92, 0, 0, 0, 0, 0,
-	0, 116, 0, 170, 0, 130, 104, 133, 0, 0,
-	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 272,
-	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 203, 0, 0, 0, 161,
-	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
-	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
-	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
-	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
-	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
-	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
-	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
-	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
-	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
-	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
-	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
-	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
-	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
-	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
-	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	125, 0, 91, 99, 132, 210, 211, 0, 163, 118,
-	197, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 170, 0, 0, 104,
+	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
+	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 88, 0, 0,
+	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 85, 0, 203, 0, 0, 0, 161, 0, 108,
+	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
+	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
+	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
+	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
+	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
+	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
+	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
+	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
+	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
+	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
+	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
+	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
+	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
+	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
+	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
+	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 352, 0, 0,
+	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
+	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
+	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
+	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
+	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
+	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
+	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
+	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
+	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
+	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
+	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
+	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
+	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
+	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
+	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
+	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
+	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 88, 0, 0,
+	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
+	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
+	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
+	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
+	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
+	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
+	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
+	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
+	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
+	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
+	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
+	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
+	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
+	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
+	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
+	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
+	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 272, 0, 0,
+	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
+	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
+	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
+	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
+	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
+	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
+	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
+	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
+	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
+	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
+	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
+	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
+	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
+	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
+	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 170, 0, 0, 104,
 }
 
 var yyPact = [...]int{
-	2421, -1000, -206, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	2419, -1000, -204, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 1350, 1376, -1000, -1000, -1000, -1000, -1000, -1000, 1171,
-	437, 401, 444, 336, 13574, 430, 1912, 14134, -1000, 156,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 1129, -1000, -1000,
-	-1000, -1000, -1000, 1341, 1347, 1148, 1311, 1217, -1000, 7368,
-	402, 11888, 13294, 6214, -1000, 992, -155, 408, 13854, 396,
-	396, 13854, 13854, 396, -1000, -72, 429, 14134, -1000, 14134,
-	392, 973, 392, 392, 392, 14134, -1000, 480, -1000, -1000,
+	-1000, 1297, 1336, -1000, -1000, -1000, -1000, -1000, -1000, 1123,
+	1010, 342, 366, 151, 13572, 365, 2424, 14132, -1000, 98,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 1029, -1000, -1000,
+	-1000, -1000, -1000, 1286, 1295, 1088, 1272, 1183, -1000, 7366,
+	318, 11886, 13292, 6499, -1000, 871, -185, 343, 13852, 316,
+	316, 13852, 13852, 316, -1000, -120, 362, 14132, -1000, 14132,
+	314, 868, 314, 314, 314, 14132, -1000, 425, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
@@ -2287,20 +2287,20 @@ var yyPact = [...]int{
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 14134, 959, 1269, 417, 4058, 4058, 4058,
-	4058, 316, 4058, -17, 1185, -1000, -1000, -1000, -1000, 4058,
+	-1000, -1000, -1000, 14132, 860, 1219, 381, 4343, 4343, 4343,
+	4343, 177, 4343, -29, 1147, -1000, -1000, -1000, -1000, 4343,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	876, 1267, 7942, 7942, 1350, -1000, 1129, -1000, -1000, -1000,
-	1259, -1000, -1000, 686, 1364, -1000, 9074, 477, -1000, 7942,
-	46, 1023, -1000, -1000, 1023, -1000, -1000, 468, -1000, -1000,
-	8508, 8508, 8508, 8508, 8508, 8508, 8508, -1000, -1000, -1000,
+	777, 1220, 7940, 7940, 1297, -1000, 1029, -1000, -1000, -1000,
+	1213, -1000, -1000, 608, 1309, -1000, 9072, 423, -1000, 7940,
+	89, 1024, -1000, -1000, 1024, -1000, -1000, 387, -1000, -1000,
+	8506, 8506, 8506, 8506, 8506, 8506, 8506, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 1023, -1000, 7655, 1023, 1023, 1023, 1023, 1023, 1023,
-	1023, 1023, 7942, 1023, 1023, 1023, 1023, 1023, 1023, 1023,
-	1023, 1023, 1907, 1023, 1023, 1023, 1023, 13008, 1083, 1142,
-	-1000, -1000, -1000, 1308, 9928, 10768, 14134, 1021, -1000, 1102,
-	5906, -29, -1000, -1000, -1000, 606, 10488, -1000, -1000, -1000,
-	1263, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 1024, -1000, 7653, 1024, 1024, 1024, 1024, 1024, 1024,
+	1024, 1024, 7940, 1024, 1024, 1024, 1024, 1024, 1024, 1024,
+	1024, 1024, 1867, 1024, 1024, 1024, 1024, 13006, 1037, 1216,
+	-1000, -1000, -1000, 1266, 9926, 10766, 14132, 1003, -1000, 1038,
+	6191, -101, -1000, -1000, -1000, 528, 10486, -1000, -1000, -1000,
+	1215, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
@@ -2311,156 +2311,156 @@ var yyPact = [...]int{
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 1012, -1000, 2110, 423, -1000, -1000, 14134, 1112, 957,
-	638, 954, 1184, 294, 14134, -1000, 12728, 4058, 404, 14134,
-	1290, 1183, 14134, 951, 936, -1000, 5598, -1000, 4058, 4058,
-	4058, 4058, 4058, 4058, 4058, 4058, -1000, -1000, -1000, -1000,
-	-1000, -1000, 4058, 4058, -1000, 23, -1000, 14134, -1000, -1000,
-	-1000, -1000, 1371, 505, 629, 476, 1111, -1000, 744, 1341,
-	876, 1217, 10208, 1167, -1000, -1000, 14134, -1000, 7942, 7942,
-	694, -1000, 12448, -1000, -1000, 4366, 517, 8508, 808, 551,
-	8508, 8508, 8508, 8508, 8508, 8508, 8508, 8508, 8508, 8508,
-	8508, 8508, 8508, 8508, 8508, 852, 1907, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 934, -1000, 1129, 978, 978,
-	19, 19, 19, 19, 19, 19, 8791, 6794, 876, 1005,
-	670, 7655, 7368, 7368, 7942, 7942, 14414, 14414, 7368, 1314,
-	622, 670, 14414, -1000, 876, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, 79, -1000, -1000, -1000, -1000, -1000,
+	-1000, 951, -1000, 2093, 359, -1000, -1000, 14132, 1126, 858,
+	581, 850, 1146, 249, 14132, -1000, 12726, 4343, 350, 14132,
+	1241, 1144, 14132, 839, 836, -1000, 5883, -1000, 4343, 4343,
+	4343, 4343, 4343, 4343, 4343, 4343, -1000, -1000, -1000, -1000,
+	-1000, -1000, 4343, 4343, -1000, 9, -1000, 14132, -1000, -1000,
+	-1000, -1000, 1331, 456, 909, 417, 1040, -1000, 516, 1286,
+	777, 1183, 10206, 1129, -1000, -1000, 14132, -1000, 7940, 7940,
+	601, -1000, 12446, -1000, -1000, 4651, 461, 8506, 651, 475,
+	8506, 8506, 8506, 8506, 8506, 8506, 8506, 8506, 8506, 8506,
+	8506, 8506, 8506, 8506, 8506, 725, 1867, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, 833, -1000, 1029, 1124, 1124,
+	11, 11, 11, 11, 11, 11, 8789, 6792, 777, 946,
+	571, 7653, 7366, 7366, 7940, 7940, 14412, 14412, 7366, 1273,
+	522, 571, 14412, -1000, 777, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, 58, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 7368, 7368, 7368, 7368, 252, 14134, -1000, 14414,
-	11888, 11888, 11888, 11888, 11888, -1000, 1213, 1200, -1000, 1197,
-	1196, 1206, 14134, -1000, 1002, 9928, 469, 1023, -1000, 12168,
-	-1000, -1000, 252, 1071, 11888, 14134, -1000, -1000, 5290, 1102,
-	-29, 1096, -1000, -35, -11, 6507, 488, -1000, -1000, -1000,
-	-1000, 3115, 751, 238, -128, 36, -1000, -1000, -1000, -1000,
-	1140, -1000, 1140, 254, 1140, 1140, 1140, -1000, 1140, 1140,
-	72, 72, 72, 72, 72, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 1170, 1164, -1000, 1140, 1140, 1140, -1000, 1140,
-	-1000, 1140, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	1157, 280, 1157, 1144, 1144, -1000, -1000, 13854, 1307, -111,
-	932, 4058, 1281, 4058, 14134, 1361, 14134, -1000, -1000, -1000,
-	935, 14134, -1000, 14134, -1000, -1000, 14134, 4058, -1000, -1000,
+	-1000, -1000, 7366, 7366, 7366, 7366, 193, 14132, -1000, 14412,
+	11886, 11886, 11886, 11886, 11886, -1000, 1180, 1176, -1000, 1174,
+	1172, 1159, 14132, -1000, 944, 9926, 413, 1024, -1000, 12166,
+	-1000, -1000, 193, 1007, 11886, 14132, -1000, -1000, 5575, 1038,
+	-101, 1034, -1000, -39, -28, 3092, 432, -1000, -1000, -1000,
+	-1000, 3727, 635, 1620, -122, 0, -1000, -1000, -1000, -1000,
+	1087, -1000, 1087, 226, 1087, 1087, 1087, -1000, 1087, 1087,
+	53, 53, 53, 53, 53, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, 1120, 1119, -1000, 1087, 1087, 1087, 1087, 1087,
+	-1000, 1087, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	1111, 224, 1111, 1089, 1089, -1000, -1000, 13852, 1265, -145,
+	824, 4343, 1238, 4343, 14132, 1323, 14132, -1000, -1000, -1000,
+	1899, 14132, -1000, 14132, -1000, -1000, 14132, 4343, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 616, -1000, -1000, -1000, -1000, 1239, 7942,
-	7942, 4982, 7942, -1000, -1000, -1000, 1267, -1000, 1314, 1328,
-	-1000, 1253, 1252, 7368, -1000, -1000, 517, 566, -1000, -1000,
-	827, -1000, -1000, -1000, -1000, 475, 1023, -1000, 1689, -1000,
-	-1000, -1000, -1000, 808, 8508, 8508, 8508, 697, 1689, 1653,
-	163, 347, 19, 400, 400, 12, 12, 12, 12, 12,
-	313, 313, -1000, -1000, -1000, -1000, 876, -1000, -1000, -1000,
-	876, 7368, 1098, -1000, -1000, 7942, -1000, 876, 1000, 1000,
-	758, 730, 1103, -1000, 474, 1099, 1000, 7368, 625, -1000,
-	7942, 876, -1000, -1000, 1000, 876, 1000, 1000, 1101, 1023,
-	-1000, 1097, -1000, 595, 1142, 1168, 1178, 1276, -1000, -1000,
-	-1000, -1000, 1199, -1000, 1198, -1000, -1000, -1000, -1000, -1000,
-	419, 414, 412, 13854, -1000, 1356, 11888, 1081, -1000, -1000,
-	1096, -29, 8, -1000, -1000, -1000, -1000, 670, -1000, -1000,
-	905, 1094, 3442, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 1160, 732, 13854, 329, 395, 433, 351, 903, -1000,
-	-1000, -1000, 737, -1000, 13854, 1370, -1000, -1000, 325, -1000,
-	323, 635, 854, 14134, 138, 1158, 1782, -1000, -209, -1000,
-	33, -1000, -1000, 825, 72, 72, 1140, 72, 72, 72,
-	-1000, -1000, 488, 1262, 488, 488, 488, 488, 851, 851,
-	-114, -114, -1000, -1000, -1000, -1000, 824, 1157, -1000, -1000,
-	-1000, 809, -1000, 1156, 1129, -1000, 4674, -1000, -1000, -1000,
-	-1000, -1000, 1303, 1177, -1000, -1000, -1000, 228, -1000, 710,
-	1367, 522, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 230, 435, -1000, 4058, -1000, 633, 14134,
-	14134, 1231, 670, 670, 473, -1000, -1000, 14134, -1000, -1000,
-	-1000, -1000, 1095, -1000, -1000, -1000, 3750, 7368, -1000, 697,
-	1689, 198, -1000, 8508, 8508, -1000, -1000, 1000, 7368, 670,
-	-1000, -1000, -1000, 1815, 852, 1815, 8508, 8508, 4982, 8508,
-	8508, -89, 1074, 610, -1000, 7942, 642, -1000, -1000, -1000,
-	-1000, -1000, 1176, 14414, 1023, -1000, 9641, 13854, 1350, 14414,
-	7942, 7942, -1000, -1000, 7942, 1151, -1000, 7942, -1000, -1000,
-	-1000, 1023, 1023, 1023, 966, -1000, 1350, 1081, -1000, -1000,
-	-1000, -41, -42, -1000, -1000, 3115, -1000, 3115, 11608, -1000,
-	1363, 1338, 320, 359, -1000, 871, 866, -1000, 860, -1000,
-	69, -1000, -190, 84, 70, -1000, -1000, 1023, -1000, 1150,
-	1302, -1000, 1271, 800, -1000, 1193, -201, -1000, -1000, -1000,
-	-1000, -1000, -1000, 1023, 1149, 1146, -1000, 1145, -1000, -1000,
-	-1000, 1029, 488, 488, 72, 488, 488, 488, -1000, 548,
-	-1000, -1000, -1000, -1000, 987, -1000, 977, -1000, 125, 102,
-	-1000, 1093, -1000, 971, 14134, 13854, -1000, 1090, -1000, 593,
-	1333, 245, 14134, 1361, -1000, 393, -1000, 13854, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, 13854, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 14134, -1000,
-	-1000, -1000, -1000, -1000, 13854, 349, -1000, -1000, 843, 7942,
-	-1000, -1000, -1000, 4674, -1000, 1356, 11888, -1000, -1000, 876,
-	-1000, 8508, 1689, 1689, -1000, -1000, 876, 1140, 1140, -1000,
-	1140, 1144, -1000, -1000, 1140, 145, 1140, 141, 876, 876,
-	118, 290, -1000, 96, 220, 1023, -79, -1000, 670, 7942,
-	-1000, 1274, 1047, 1078, -1000, -1000, 7081, 876, 969, 472,
-	966, 1341, -1000, 670, 670, 670, 11048, 670, 11048, 11048,
-	11048, 9354, 13854, 1341, -1000, -1000, -1000, -1000, 3442, -1000,
-	963, -1000, 1140, 1140, 390, 390, -193, 318, 302, -1000,
-	-1000, -1000, -1000, -155, -1000, -1000, 635, -1000, 7942, 11048,
-	-176, -1000, 1088, 1025, 303, -1000, 164, 876, -1000, 844,
-	-1000, 725, 1022, -1000, -1000, -1000, 488, -1000, -1000, -1000,
-	-1000, -1000, 72, 842, 72, 30, 24, 798, -1000, 785,
-	1110, 1175, 4674, 3115, 397, 1334, -1000, -1000, 1331, 1292,
-	13854, -1000, -1000, -1000, 1128, -1000, -1000, -1000, -1000, 1284,
-	13854, -1000, -1000, 670, 1354, 1084, -1000, 1689, -1000, -1000,
-	271, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	8508, 8508, -1000, 8508, 8508, 8508, 876, 834, 670, 293,
-	-1000, 1023, -1000, -1000, 1076, 13854, 13854, -1000, -1000, 943,
-	-1000, -1000, 941, 941, 941, 469, -1000, -1000, 787, 11608,
-	1278, -1000, 714, -1000, -1000, 649, 180, 659, -1000, 13854,
-	-155, -1000, 1023, 818, 931, 1127, 784, -1000, 1017, 76,
-	-114, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 488, -1000,
-	488, -1000, -1000, 997, 944, 11608, 13854, 14134, -1000, -1000,
-	13854, -1000, -1000, -1000, -1000, -1000, 172, 227, 1125, 11048,
-	1023, 357, 1352, 1345, -1000, -1000, 150, 150, 150, 150,
-	68, -1000, -1000, 1368, -1000, 1023, -1000, 1129, 465, -1000,
-	13854, -1000, -1000, -1000, -1000, -1000, 1174, 1542, 123, -1000,
-	858, 591, 698, 586, 585, 583, 580, 568, 558, 528,
-	-1000, -1000, -1000, 1365, -1000, -1000, -1000, 1366, 1122, -1000,
-	1120, 7942, 191, -1000, -1000, 920, 895, -1000, -1000, -1000,
-	-1000, -1000, -1000, 919, 1119, 1118, 1009, -1000, 165, 227,
-	-1000, -1000, -1000, -1000, 11608, 917, 222, 285, -1000, 7942,
-	7942, -1000, -1000, -1000, -1000, 876, 174, -120, 14414, 1078,
-	876, 13854, -1000, -1000, 13854, -1000, -117, 1542, 13854, -1000,
-	776, -1000, -1000, 799, 755, 799, 799, 799, 799, 799,
-	390, 390, 13854, 11608, 818, -1000, -81, 129, -1000, -1000,
-	-195, 11608, 11608, -110, 13854, 7942, 227, -1000, 913, 1112,
-	911, -1000, 13854, 1117, 670, 1072, -1000, 1228, -108, -140,
-	1038, -1000, -1000, 1023, 894, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 635, 635, 890,
-	888, -1000, -1000, -1000, 126, 838, 752, 750, 747, -19,
-	-1000, 1343, 1356, 1116, 885, 883, -1000, -203, -1000, 670,
-	-1000, -1000, -111, -1000, 222, 1245, 11608, -1000, 1227, -1000,
-	13854, -1000, 1542, -1000, -1000, 339, 787, 700, -1000, 695,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 11328, 787, 11048,
-	1356, 787, 7942, -1000, -1000, 231, 879, -112, 876, -1000,
-	14134, 1174, -1000, -1000, -1000, 463, 1174, 875, 787, -1000,
-	670, 210, -1000, -138, -1000, 1115, -1000, 4674, -1000, -1000,
-	-1000, 1023, -162, 13854, -1000, 8225, -1000, 870, 150, 876,
-	-1000, -1000, -1000,
+	-1000, -1000, -1000, 561, -1000, -1000, -1000, -1000, 1195, 7940,
+	7940, 5267, 7940, -1000, -1000, -1000, 1220, -1000, 1273, 1279,
+	-1000, 1206, 1204, 7366, -1000, -1000, 461, 518, -1000, -1000,
+	700, -1000, -1000, -1000, -1000, 400, 1024, -1000, 419, -1000,
+	-1000, -1000, -1000, 651, 8506, 8506, 8506, 851, 419, 1934,
+	282, 265, 11, 35, 35, 13, 13, 13, 13, 13,
+	313, 313, -1000, -1000, -1000, -1000, 777, -1000, -1000, -1000,
+	777, 7366, 1036, -1000, -1000, 7940, -1000, 777, 941, 941,
+	594, 644, 1020, -1000, 398, 1009, 941, 7366, 560, -1000,
+	7940, 777, -1000, -1000, 941, 777, 941, 941, 1000, 1024,
+	-1000, 1011, -1000, 524, 1216, 1118, 1143, 1424, -1000, -1000,
+	-1000, -1000, 1170, -1000, 1163, -1000, -1000, -1000, -1000, -1000,
+	356, 354, 353, 13852, -1000, 1305, 11886, 998, -1000, -1000,
+	1034, -101, -31, -1000, -1000, -1000, -1000, 571, -1000, -1000,
+	817, 1019, 3419, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 1113, 646, 13852, 239, 272, 336, 335, 796, -1000,
+	-1000, -1000, 680, -1000, 13852, 1330, -1000, -1000, 233, -1000,
+	210, 567, 751, 14132, 135, 1112, 2117, -1000, -208, -1000,
+	-2, -1000, -1000, 730, 53, 53, 1087, 53, 53, 53,
+	-1000, -1000, 432, 1211, 432, 432, 432, 432, 749, 749,
+	-143, -143, -1000, -1000, -1000, -1000, -1000, 728, 1111, -1000,
+	-1000, -1000, 719, -1000, 1104, 1029, -1000, 4959, -1000, -1000,
+	-1000, -1000, -1000, 1264, 1137, -1000, -1000, -1000, 146, -1000,
+	908, 2343, 347, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, 189, 369, -1000, 4343, -1000, 541,
+	14132, 14132, 1192, 571, 571, 397, -1000, -1000, 14132, -1000,
+	-1000, -1000, -1000, 991, -1000, -1000, -1000, 4035, 7366, -1000,
+	851, 419, 744, -1000, 8506, 8506, -1000, -1000, 941, 7366,
+	571, -1000, -1000, -1000, 655, 725, 655, 8506, 8506, 5267,
+	8506, 8506, -134, 992, 551, -1000, 7940, 508, -1000, -1000,
+	-1000, -1000, -1000, 1136, 14412, 1024, -1000, 9639, 13852, 1297,
+	14412, 7940, 7940, -1000, -1000, 7940, 1101, -1000, 7940, -1000,
+	-1000, -1000, 1024, 1024, 1024, 911, -1000, 1297, 998, -1000,
+	-1000, -1000, -70, -100, -1000, -1000, 3727, -1000, 3727, 11606,
+	-1000, 1314, 1281, 266, 281, -1000, 792, 779, -1000, 772,
+	-1000, -13, -1000, -183, 82, -11, -1000, -1000, 1024, -1000,
+	1100, 1254, -1000, 1214, 713, -1000, 2096, -194, -1000, -1000,
+	-1000, -1000, -1000, -1000, 1024, 1094, 1093, -1000, 1090, -1000,
+	-1000, -1000, 912, 432, 432, 53, 432, 432, 432, -1000,
+	467, -1000, -1000, -1000, -1000, 930, -1000, 928, -1000, 75,
+	74, -1000, 1014, -1000, 918, 14132, 13852, -1000, 994, -1000,
+	520, 1280, 161, 14132, 1323, -1000, 213, -1000, 13852, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 13852, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 14132,
+	-1000, -1000, -1000, -1000, -1000, 13852, 276, -1000, -1000, 748,
+	7940, -1000, -1000, -1000, 4959, -1000, 1305, 11886, -1000, -1000,
+	777, -1000, 8506, 419, 419, -1000, -1000, 777, 1087, 1087,
+	-1000, 1087, 1089, -1000, -1000, 1087, 106, 1087, 91, 777,
+	777, 188, 352, -1000, 155, 120, 1024, -127, -1000, 571,
+	7940, -1000, 1218, 939, 973, -1000, -1000, 7079, 777, 915,
+	396, 911, 1286, -1000, 571, 571, 571, 11046, 571, 11046,
+	11046, 11046, 9352, 13852, 1286, -1000, -1000, -1000, -1000, 3419,
+	-1000, 882, -1000, 1087, 1087, 303, 303, -184, 208, 207,
+	-1000, -1000, -1000, -1000, -185, -1000, -1000, 567, -1000, 7940,
+	11046, -175, -1000, 988, 907, 2146, -1000, 329, 777, -1000,
+	698, -1000, 687, 903, -1000, -1000, -1000, 432, -1000, -1000,
+	-1000, -1000, -1000, 53, 736, 53, -7, -12, 705, -1000,
+	701, 1023, 1128, 4959, 3727, 315, 1269, -1000, -1000, 1277,
+	1243, 13852, -1000, -1000, -1000, 1085, -1000, -1000, -1000, -1000,
+	1223, 13852, -1000, -1000, 571, 1303, 974, -1000, 419, -1000,
+	-1000, 209, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 8506, 8506, -1000, 8506, 8506, 8506, 777, 732, 571,
+	205, -1000, 1024, -1000, -1000, 1018, 13852, 13852, -1000, -1000,
+	879, -1000, -1000, 875, 875, 875, 413, -1000, -1000, 1292,
+	11606, 1228, -1000, 630, -1000, -1000, 588, 143, 590, -1000,
+	13852, -185, -1000, 1024, 623, 867, 1083, 699, -1000, 900,
+	37, -143, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 432,
+	-1000, 432, -1000, -1000, 887, 883, 11606, 13852, 14132, -1000,
+	-1000, 13852, -1000, -1000, -1000, -1000, -1000, 127, 156, 1082,
+	11046, 1024, 280, 1300, 1294, -1000, -1000, 214, 214, 214,
+	214, 105, -1000, -1000, 1320, -1000, 1024, -1000, 1029, 392,
+	-1000, 13852, -1000, -1000, -1000, -1000, -1000, 1021, 1559, 92,
+	-1000, 757, 519, 652, 517, 511, 494, 491, 486, 476,
+	472, -1000, -1000, -1000, 1319, -1000, -1000, -1000, 1316, 1081,
+	-1000, 1079, 7940, 147, -1000, -1000, 876, 857, -1000, -1000,
+	-1000, -1000, -1000, -1000, 856, 1078, 1058, 934, -1000, 123,
+	156, -1000, -1000, -1000, -1000, 11606, 854, 182, 204, -1000,
+	7940, 7940, -1000, -1000, -1000, -1000, 777, 110, -153, 14412,
+	973, 777, 13852, -1000, -1000, 13852, -1000, -151, 1559, 13852,
+	-1000, 675, -1000, -1000, 629, 669, 629, 629, 629, 629,
+	629, 303, 303, 13852, 11606, 623, -1000, -130, 846, -1000,
+	-1000, -190, 11606, 11606, -141, 13852, 7940, 156, -1000, 848,
+	1126, 843, -1000, 13852, 1057, 571, 956, -1000, 1190, -138,
+	-166, 924, -1000, -1000, 1024, 832, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 567, 567,
+	829, 823, -1000, -1000, -1000, 97, 723, 667, 658, 650,
+	-6, -1000, 1289, 1305, 1046, 810, 806, -1000, -201, -1000,
+	571, -1000, -1000, -145, -1000, 182, 1203, 11606, -1000, 1186,
+	-1000, 13852, -1000, 1559, -1000, -1000, 216, 1292, 642, -1000,
+	631, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 11326, 1292,
+	11046, 1305, 1292, 7940, -1000, -1000, 178, 804, -148, 777,
+	-1000, 14132, 1021, -1000, -1000, -1000, 379, 1021, 776, 1292,
+	-1000, 571, 175, -1000, -163, -1000, 1030, -1000, 4959, -1000,
+	-1000, -1000, 1024, -168, 13852, -1000, 8223, -1000, 763, 214,
+	777, -1000, -1000, -1000,
 }
 
 var yyPgo = [...]int{
-	0, 1623, 18, 912, 1622, 1621, 1620, 1388, 1384, 1382,
-	1619, 1618, 1615, 1614, 1612, 1611, 1610, 1609, 1607, 1605,
-	1601, 1597, 1594, 1592, 652, 1591, 1582, 1581, 95, 1574,
-	104, 1571, 1570, 54, 113, 60, 51, 816, 1569, 40,
-	96, 85, 1568, 67, 1567, 1562, 98, 1561, 84, 1558,
-	1557, 122, 1555, 1554, 25, 4, 1552, 32, 1550, 1547,
-	99, 68, 1546, 1537, 1536, 1533, 1532, 1529, 75, 13,
-	14, 22, 26, 1528, 59, 74, 1527, 71, 1526, 1524,
-	1520, 1519, 52, 1517, 77, 17, 34, 76, 1515, 12,
-	1513, 92, 49, 36, 9, 97, 82, 1511, 53, 87,
-	70, 1509, 1508, 751, 1506, 1505, 1500, 1499, 1491, 1490,
-	763, 830, 1489, 1485, 1484, 55, 0, 329, 15, 103,
-	1481, 56, 1479, 1897, 93, 83, 39, 1477, 44, 281,
-	50, 1475, 1474, 48, 94, 1473, 101, 100, 1472, 1470,
-	1469, 1468, 1464, 1266, 45, 30, 47, 1461, 1460, 1459,
-	24, 58, 42, 61, 81, 1458, 1457, 1456, 41, 1455,
-	23, 16, 3, 65, 1454, 1453, 1452, 1451, 46, 28,
-	1449, 29, 31, 1, 2, 5, 1448, 1447, 1446, 7,
-	1435, 27, 1434, 6, 1433, 10, 1424, 1423, 1420, 1419,
-	1417, 1415, 1414, 1413, 1412, 1409, 21, 8, 43, 33,
-	20, 57, 37, 1407, 11, 1406, 1405, 1503, 683, 1395,
-	1394, 1392, 1390, 105,
+	0, 1570, 45, 810, 1569, 1563, 1562, 1353, 1346, 1344,
+	1561, 1559, 1558, 1557, 1556, 1549, 1548, 1547, 1545, 1541,
+	1540, 1539, 1537, 1536, 555, 1534, 1533, 1532, 85, 1531,
+	104, 1529, 1528, 53, 128, 54, 52, 119, 1527, 37,
+	90, 87, 1525, 71, 1524, 1523, 105, 1522, 84, 1521,
+	1520, 67, 1519, 1518, 26, 7, 1516, 30, 1515, 1513,
+	91, 68, 1512, 1511, 1510, 1509, 1507, 1503, 74, 23,
+	11, 22, 25, 1501, 51, 14, 1499, 70, 1498, 1497,
+	1495, 1494, 48, 1493, 75, 18, 34, 76, 1491, 12,
+	1488, 83, 42, 31, 13, 98, 82, 1487, 44, 81,
+	66, 1486, 1485, 688, 1484, 1483, 1482, 1480, 1479, 1477,
+	707, 729, 1476, 1473, 1469, 56, 0, 329, 15, 92,
+	1455, 55, 1454, 1873, 101, 88, 29, 1452, 50, 1396,
+	49, 1450, 1449, 58, 100, 1448, 106, 103, 1447, 1436,
+	1435, 1434, 1433, 89, 40, 176, 60, 1427, 1425, 1421,
+	24, 61, 33, 65, 77, 1418, 1416, 1415, 39, 1414,
+	17, 19, 4, 57, 1413, 1410, 1409, 1407, 41, 28,
+	1406, 21, 16, 1, 5, 2, 1404, 1403, 1402, 3,
+	1399, 27, 1395, 6, 1393, 10, 1392, 1391, 1390, 1389,
+	1382, 1381, 1376, 1372, 1371, 1369, 20, 8, 43, 32,
+	47, 59, 36, 1365, 9, 1364, 1362, 1504, 528, 1360,
+	1358, 1351, 1348, 108,
 }
 
 var yyR1 = [...]int{
@@ -2587,7 +2587,7 @@ var yyR2 = [...]int{
 	3, 1, 3, 0, 2, 0, 3, 3, 2, 2,
 	2, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 2, 3, 2, 2, 2, 2, 1, 1,
-	1, 3, 3, 2, 1, 2, 1, 2, 1, 1,
+	1, 3, 3, 2, 2, 2, 1, 2, 1, 1,
 	4, 4, 4, 4, 4, 1, 5, 2, 2, 3,
 	3, 3, 3, 3, 1, 1, 1, 1, 1, 1,
 	1, 6, 6, 1, 1, 1, 1, 1, 1, 1,
@@ -2766,81 +2766,81 @@ var yyChk = [...]int{
 	134, 312, 64, 128, 297, 299, 28, -149, 314, 236,
 	-147, 244, -143, 52, -143, -143, 208, -143, -143, -143,
 	-143, -143, -145, 210, -145, -145, -145, -145, 52, 52,
-	-143, -143, -143, -143, -143, -151, 52, 193, -151, -151,
-	-152, 52, -152, -117, 22, -183, 291, -184, 55, -129,
-	23, -129, -51, -202, 8, 9, 10, -51, -112, 117,
-	114, 115, -180, 113, 241, 210, 64, 28, 15, 280,
-	145, 296, 55, 146, -51, -51, -51, -129, -107, 11,
-	90, 36, -37, -37, -124, -84, -87, -102, 19, 11,
-	32, 32, -34, 66, 67, 68, 109, -207, -68, -61,
-	-61, -61, -33, 140, 71, -208, -208, -34, 53, -37,
-	-208, -208, -208, 53, 51, 22, 53, 11, 109, 53,
-	11, -208, -34, -79, -77, 78, -37, -208, -208, -208,
-	-208, -208, -59, 29, 32, -2, -207, -207, -55, 53,
-	12, 80, -44, -43, 50, 51, -45, 50, -43, 40,
-	40, 120, 120, 120, -92, -117, -55, -39, -55, -100,
-	-101, 266, 263, 269, 55, 53, -169, 80, 52, -197,
-	50, 72, -161, -117, 135, -163, -163, 55, -163, 55,
-	55, 66, 19, -117, 9, 135, 135, -197, 57, -123,
-	-194, 298, 16, 52, -199, 52, 57, 58, 59, 66,
-	-144, 65, -57, 237, 270, 273, 272, 238, 315, -148,
-	245, 58, -145, -145, -143, -145, -145, -145, -146, 29,
-	-146, -146, -146, -146, -153, 57, -153, -150, 291, 292,
-	-150, 58, -151, 58, 50, 51, -2, -182, -181, -118,
-	-187, 22, 50, -201, -128, -121, -211, 151, 126, 131,
-	130, 55, 125, 129, 145, -186, 151, 126, 127, 131,
-	130, 55, 120, 135, 125, 129, 145, 134, -113, -114,
-	122, 22, 120, 135, 145, 117, -129, -109, 88, 12,
-	-123, -123, 37, 109, -51, -38, 11, 97, -118, -35,
-	-33, 71, -61, -61, -208, -36, -133, 106, 206, 139,
-	201, 195, 225, 226, 212, 243, 199, 244, -130, -133,
-	-61, -61, -118, -61, -61, 288, -82, 79, -37, 77,
-	-93, 50, -94, -70, -72, -71, -207, -2, -88, -117,
-	-92, -82, -98, -37, -37, -37, 52, -37, -207, -207,
-	-207, -208, 53, -82, -55, 263, 267, 268, -168, -169,
-	-172, -171, -117, 135, 10, 9, 19, 131, 125, 55,
-	55, 55, -196, 134, 309, -198, 312, -144, -207, 52,
-	22, 28, 58, -199, 52, -189, 311, -207, -143, 52,
-	-143, 52, 52, 54, -146, -146, -145, -146, -146, -146,
-	55, 106, 54, 53, 54, 199, 199, 53, 54, 53,
-	-51, -117, 53, 80, -188, 19, 159, 160, -51, -202,
-	-210, 120, 135, -128, -117, -128, -117, -51, -128, -117,
-	127, -158, 57, -37, -55, -39, -208, -61, -208, -143,
-	-143, -143, -152, -143, 186, -143, 186, -208, -208, -208,
-	53, 19, -208, 53, 19, -207, -32, 285, -37, 27,
-	-93, 53, -208, -208, -208, 53, 109, -208, -86, -89,
-	-117, 135, -89, -89, -89, -126, -117, -86, 54, 53,
-	-143, -143, -160, 155, 156, 29, 157, -160, 309, 135,
-	135, -196, -197, -37, -89, 299, 53, 54, -199, 210,
-	200, 239, 216, -208, 54, 54, 54, -146, -145, 57,
-	-145, 246, 246, 58, 58, 52, 51, 50, -181, -169,
-	122, 20, 6, 8, 9, 10, 19, 22, -117, 52,
-	26, -117, -80, 13, -145, 55, -61, -61, -61, -61,
-	-61, -208, 57, 135, -72, 32, -2, -207, -117, -117,
-	53, 54, -208, -208, -208, -54, -174, -176, 291, -175,
-	51, 132, 64, 164, 165, 166, 167, 168, 169, 170,
-	-171, -85, -197, 50, 66, 158, -197, 50, -161, -117,
-	-196, -207, -208, 54, 52, 58, 54, 208, -150, -146,
-	-146, 54, 54, -172, -117, -51, -162, -117, 173, -203,
-	-204, -7, -9, -8, 52, -89, -207, 125, -81, 14,
-	16, -208, -208, -208, -208, -31, 90, 291, 9, -70,
-	-2, 109, -117, -173, 50, -175, 291, 52, 293, 55,
-	-164, 80, 57, 80, 80, 80, 80, 80, 80, 80,
-	9, 10, 52, 52, -37, -193, 157, -195, 54, 54,
-	54, 52, 52, -190, 53, 51, 174, -204, -172, 54,
-	-178, -179, 145, 135, -37, -69, -208, 289, 47, 294,
-	-94, -208, -117, -117, -177, -175, -117, 58, -200, 50,
-	69, 58, -200, -200, -200, -200, -200, -160, -160, -162,
-	-172, -208, 286, 54, 176, 301, 302, 144, 303, 157,
-	304, 305, -90, 310, -172, -172, -191, 291, -117, -37,
-	-204, 54, -185, -208, 53, -117, 52, 37, 290, 295,
-	-207, 54, 53, -197, -197, 54, 54, 291, 58, 16,
-	58, 58, 58, 58, 302, 144, 304, 16, -55, 52,
-	54, 54, 312, -183, -179, 32, -172, 37, -117, -175,
-	128, -174, 58, 58, 306, -123, -174, -89, -55, -174,
-	-37, 147, 54, 291, -208, -51, -173, 109, -173, 54,
-	-174, 148, 294, 52, -118, -207, 295, -162, -61, 144,
-	54, -208, -208,
+	-143, -143, -143, -143, -143, -143, -151, 52, 193, -151,
+	-151, -152, 52, -152, -117, 22, -183, 291, -184, 55,
+	-129, 23, -129, -51, -202, 8, 9, 10, -51, -112,
+	117, 114, 115, -180, 113, 241, 210, 64, 28, 15,
+	280, 145, 296, 55, 146, -51, -51, -51, -129, -107,
+	11, 90, 36, -37, -37, -124, -84, -87, -102, 19,
+	11, 32, 32, -34, 66, 67, 68, 109, -207, -68,
+	-61, -61, -61, -33, 140, 71, -208, -208, -34, 53,
+	-37, -208, -208, -208, 53, 51, 22, 53, 11, 109,
+	53, 11, -208, -34, -79, -77, 78, -37, -208, -208,
+	-208, -208, -208, -59, 29, 32, -2, -207, -207, -55,
+	53, 12, 80, -44, -43, 50, 51, -45, 50, -43,
+	40, 40, 120, 120, 120, -92, -117, -55, -39, -55,
+	-100, -101, 266, 263, 269, 55, 53, -169, 80, 52,
+	-197, 50, 72, -161, -117, 135, -163, -163, 55, -163,
+	55, 55, 66, 19, -117, 9, 135, 135, -197, 57,
+	-123, -194, 298, 16, 52, -199, 52, 57, 58, 59,
+	66, -144, 65, -57, 237, 270, 273, 272, 238, 315,
+	-148, 245, 58, -145, -145, -143, -145, -145, -145, -146,
+	29, -146, -146, -146, -146, -153, 57, -153, -150, 291,
+	292, -150, 58, -151, 58, 50, 51, -2, -182, -181,
+	-118, -187, 22, 50, -201, -128, -121, -211, 151, 126,
+	131, 130, 55, 125, 129, 145, -186, 151, 126, 127,
+	131, 130, 55, 120, 135, 125, 129, 145, 134, -113,
+	-114, 122, 22, 120, 135, 145, 117, -129, -109, 88,
+	12, -123, -123, 37, 109, -51, -38, 11, 97, -118,
+	-35, -33, 71, -61, -61, -208, -36, -133, 106, 206,
+	139, 201, 195, 225, 226, 212, 243, 199, 244, -130,
+	-133, -61, -61, -118, -61, -61, 288, -82, 79, -37,
+	77, -93, 50, -94, -70, -72, -71, -207, -2, -88,
+	-117, -92, -82, -98, -37, -37, -37, 52, -37, -207,
+	-207, -207, -208, 53, -82, -55, 263, 267, 268, -168,
+	-169, -172, -171, -117, 135, 10, 9, 19, 131, 125,
+	55, 55, 55, -196, 134, 309, -198, 312, -144, -207,
+	52, 22, 28, 58, -199, 52, -189, 311, -207, -143,
+	52, -143, 52, 52, 54, -146, -146, -145, -146, -146,
+	-146, 55, 106, 54, 53, 54, 199, 199, 53, 54,
+	53, -51, -117, 53, 80, -188, 19, 159, 160, -51,
+	-202, -210, 120, 135, -128, -117, -128, -117, -51, -128,
+	-117, 127, -158, 57, -37, -55, -39, -208, -61, -208,
+	-143, -143, -143, -152, -143, 186, -143, 186, -208, -208,
+	-208, 53, 19, -208, 53, 19, -207, -32, 285, -37,
+	27, -93, 53, -208, -208, -208, 53, 109, -208, -86,
+	-89, -117, 135, -89, -89, -89, -126, -117, -86, 54,
+	53, -143, -143, -160, 155, 156, 29, 157, -160, 309,
+	135, 135, -196, -197, -37, -89, 299, 53, 54, -199,
+	210, 200, 239, 216, -208, 54, 54, 54, -146, -145,
+	57, -145, 246, 246, 58, 58, 52, 51, 50, -181,
+	-169, 122, 20, 6, 8, 9, 10, 19, 22, -117,
+	52, 26, -117, -80, 13, -145, 55, -61, -61, -61,
+	-61, -61, -208, 57, 135, -72, 32, -2, -207, -117,
+	-117, 53, 54, -208, -208, -208, -54, -174, -176, 291,
+	-175, 51, 132, 64, 164, 165, 166, 167, 168, 169,
+	170, -171, -85, -197, 50, 66, 158, -197, 50, -161,
+	-117, -196, -207, -208, 54, 52, 58, 54, 208, -150,
+	-146, -146, 54, 54, -172, -117, -51, -162, -117, 173,
+	-203, -204, -7, -9, -8, 52, -89, -207, 125, -81,
+	14, 16, -208, -208, -208, -208, -31, 90, 291, 9,
+	-70, -2, 109, -117, -173, 50, -175, 291, 52, 293,
+	55, -164, 80, 57, 80, 80, 80, 80, 80, 80,
+	80, 9, 10, 52, 52, -37, -193, 157, -195, 54,
+	54, 54, 52, 52, -190, 53, 51, 174, -204, -172,
+	54, -178, -179, 145, 135, -37, -69, -208, 289, 47,
+	294, -94, -208, -117, -117, -177, -175, -117, 58, -200,
+	50, 69, 58, -200, -200, -200, -200, -200, -160, -160,
+	-162, -172, -208, 286, 54, 176, 301, 302, 144, 303,
+	157, 304, 305, -90, 310, -172, -172, -191, 291, -117,
+	-37, -204, 54, -185, -208, 53, -117, 52, 37, 290,
+	295, -207, 54, 53, -197, -197, 54, 54, 291, 58,
+	16, 58, 58, 58, 58, 302, 144, 304, 16, -55,
+	52, 54, 54, 312, -183, -179, 32, -172, 37, -117,
+	-175, 128, -174, 58, 58, 306, -123, -174, -89, -55,
+	-174, -37, 147, 54, 291, -208, -51, -173, 109, -173,
+	54, -174, 148, 294, 52, -118, -207, 295, -162, -61,
+	144, 54, -208, -208,
 }
 
 var yyDef = [...]int{
@@ -2914,7 +2914,7 @@ var yyDef = [...]int{
 	717, 326, 0, 113, 257, 253, 115, 116, 117, 118,
 	243, 181, 243, 243, 243, 243, 243, 215, 243, 243,
 	260, 260, 260, 260, 260, 224, 225, 226, 227, 228,
-	229, 230, 0, 0, 200, 243, 243, 243, 204, 243,
+	229, 230, 0, 0, 200, 243, 243, 243, 243, 243,
 	206, 243, 233, 234, 235, 236, 237, 238, 239, 240,
 	245, 245, 245, 247, 247, 198, 199, 0, 0, 99,
 	0, 996, 0, 996, 0, 0, 0, 71, 72, 106,
@@ -2940,81 +2940,81 @@ var yyDef = [...]int{
 	130, 320, 0, 0, 0, 0, 0, 119, 0, 259,
 	255, 254, 180, 0, 260, 260, 243, 260, 260, 260,
 	217, 218, 263, 0, 263, 263, 263, 263, 0, 0,
-	250, 250, 203, 205, 207, 192, 0, 245, 194, 195,
-	196, 0, 197, 0, 0, 65, 0, 97, 98, 66,
-	727, 67, 81, 0, 73, 74, 75, 0, 995, 94,
-	0, 740, 346, 730, 731, 732, 733, 734, 735, 736,
-	737, 738, 739, 0, 0, 372, 996, 375, 413, 0,
-	0, 0, 684, 685, 0, 677, 23, 0, 722, 723,
-	668, 669, 457, 534, 536, 538, 0, 444, 525, 546,
-	529, 0, 526, 0, 0, 520, 586, 0, 0, 553,
-	-2, 589, 590, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 674, 0, 652, 0, 0, 603, 615, 616,
-	617, 618, 699, 0, 0, -2, 0, 0, 674, 0,
-	0, 0, 473, 480, 0, 0, 474, 0, 475, 495,
-	497, 0, 0, 0, 0, 471, 674, 508, 38, 50,
-	51, 0, 0, 57, 265, 0, 330, 0, 0, 306,
-	0, 0, 0, 323, 292, 0, 0, 295, 0, 297,
-	317, 121, 0, 0, 0, 127, 129, 0, 133, 134,
-	0, 151, 0, 0, 140, 0, 175, 144, 145, 146,
-	147, 148, 149, 0, 243, 243, 171, 0, 258, 114,
-	256, 0, 263, 263, 260, 263, 263, 263, 219, 0,
-	220, 221, 222, 223, 0, 241, 0, 201, 0, 0,
-	202, 0, 193, 0, 0, 0, -2, 100, 101, 0,
-	84, 0, 0, 0, 335, 0, 995, 0, 360, 361,
-	362, 363, 364, 365, 366, 995, 0, 347, 348, 349,
-	350, 351, 352, 353, 354, 355, 356, 357, 0, 995,
-	741, 742, 743, 744, 0, 0, 374, 395, 0, 0,
-	411, 412, 688, 0, 24, 508, 0, 451, 658, 0,
-	527, 0, 547, 530, 587, 447, 0, 243, 243, 629,
-	243, 247, 632, 633, 243, 635, 243, 638, 0, 0,
-	0, 0, 657, 0, 0, 0, 649, 602, 655, 0,
-	31, 0, 699, 689, 701, 703, 0, 27, 0, 695,
-	0, 682, 708, 509, 709, 477, 0, 482, 0, 0,
-	0, 485, 0, 682, 37, 54, 55, 56, 328, 331,
-	0, 302, 243, 243, 0, 0, 0, 0, 0, 293,
-	294, 296, 298, 317, 139, 123, 320, 124, 0, 0,
-	0, 152, 0, 0, 0, 143, 0, 0, 167, 0,
-	169, 0, 0, 244, 210, 211, 263, 212, 213, 214,
-	261, 262, 260, 0, 260, 0, 0, 0, 248, 0,
-	0, 0, 0, 0, 0, 0, 82, 83, 0, 0,
-	0, 358, 359, 339, 0, 340, 342, 343, 344, 0,
-	322, 338, 414, 415, 670, 458, 588, 531, 591, 626,
-	260, 630, 631, 634, 636, 637, 639, 593, 592, 594,
-	0, 0, 597, 0, 0, 0, 0, 0, 653, 0,
-	32, 0, 704, -2, 0, 0, 0, 44, 35, 0,
-	468, 469, 0, 0, 0, 504, 472, 36, 267, 0,
-	679, 305, 320, 312, 313, 0, 0, 320, 321, 322,
-	317, 299, 0, 0, 0, 136, 0, 141, 0, 0,
-	250, 178, 179, 150, 168, 170, 172, 216, 263, 242,
-	263, 251, 252, 0, 0, 0, 0, 0, 102, 103,
-	0, 85, 86, 87, 88, 89, 0, 0, 0, 0,
-	0, 323, 672, 0, 627, 628, 0, 0, 0, 0,
-	619, 601, 650, 0, 702, 0, -2, 0, 697, 696,
-	0, 478, 505, 506, 507, 467, 289, 268, 0, 270,
-	0, 285, 0, 0, 0, 0, 0, 0, 0, 0,
-	303, 304, 307, 0, 314, 315, 308, 0, 0, 323,
-	0, 0, 173, 135, 153, 0, 0, 176, 177, 231,
-	232, 246, 249, 0, 0, 0, 90, 324, 0, 70,
-	76, 78, 79, 80, 0, 0, 0, 0, 26, 0,
-	0, 595, 596, 598, 599, 0, 0, 0, 0, 692,
-	27, 0, 470, 266, 0, 271, 0, 0, 0, 274,
-	0, 286, 276, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 131, 0, 0, 138, 142,
-	510, 0, 0, 92, 0, 0, 0, 77, 0, 96,
-	0, 368, 0, 0, 673, 671, 600, 0, 0, 0,
-	700, -2, 698, 290, 0, 272, 277, 275, 278, 287,
-	288, 279, 280, 281, 282, 283, 284, 320, 320, 0,
-	0, 132, 174, 137, 0, 0, 0, 0, 0, 0,
-	164, 0, 508, 0, 0, 0, 68, 0, 325, 91,
-	69, 336, 99, 367, 0, 0, 0, 620, 0, 623,
-	0, 269, 0, 309, 310, 0, 267, 0, 155, 0,
-	157, 158, 159, 160, 161, 162, 163, 0, 267, 0,
-	508, 267, 0, 341, 369, 0, 0, 621, 0, 273,
-	0, 289, 154, 156, 165, 0, 289, 0, 267, 62,
-	93, 0, 337, 0, 291, 0, 316, 0, 61, 511,
-	63, 0, 0, 0, 166, 0, 622, 0, 0, 0,
-	311, 370, 371,
+	250, 250, 203, 204, 205, 207, 192, 0, 245, 194,
+	195, 196, 0, 197, 0, 0, 65, 0, 97, 98,
+	66, 727, 67, 81, 0, 73, 74, 75, 0, 995,
+	94, 0, 740, 346, 730, 731, 732, 733, 734, 735,
+	736, 737, 738, 739, 0, 0, 372, 996, 375, 413,
+	0, 0, 0, 684, 685, 0, 677, 23, 0, 722,
+	723, 668, 669, 457, 534, 536, 538, 0, 444, 525,
+	546, 529, 0, 526, 0, 0, 520, 586, 0, 0,
+	553, -2, 589, 590, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 674, 0, 652, 0, 0, 603, 615,
+	616, 617, 618, 699, 0, 0, -2, 0, 0, 674,
+	0, 0, 0, 473, 480, 0, 0, 474, 0, 475,
+	495, 497, 0, 0, 0, 0, 471, 674, 508, 38,
+	50, 51, 0, 0, 57, 265, 0, 330, 0, 0,
+	306, 0, 0, 0, 323, 292, 0, 0, 295, 0,
+	297, 317, 121, 0, 0, 0, 127, 129, 0, 133,
+	134, 0, 151, 0, 0, 140, 0, 175, 144, 145,
+	146, 147, 148, 149, 0, 243, 243, 171, 0, 258,
+	114, 256, 0, 263, 263, 260, 263, 263, 263, 219,
+	0, 220, 221, 222, 223, 0, 241, 0, 201, 0,
+	0, 202, 0, 193, 0, 0, 0, -2, 100, 101,
+	0, 84, 0, 0, 0, 335, 0, 995, 0, 360,
+	361, 362, 363, 364, 365, 366, 995, 0, 347, 348,
+	349, 350, 351, 352, 353, 354, 355, 356, 357, 0,
+	995, 741, 742, 743, 744, 0, 0, 374, 395, 0,
+	0, 411, 412, 688, 0, 24, 508, 0, 451, 658,
+	0, 527, 0, 547, 530, 587, 447, 0, 243, 243,
+	629, 243, 247, 632, 633, 243, 635, 243, 638, 0,
+	0, 0, 0, 657, 0, 0, 0, 649, 602, 655,
+	0, 31, 0, 699, 689, 701, 703, 0, 27, 0,
+	695, 0, 682, 708, 509, 709, 477, 0, 482, 0,
+	0, 0, 485, 0, 682, 37, 54, 55, 56, 328,
+	331, 0, 302, 243, 243, 0, 0, 0, 0, 0,
+	293, 294, 296, 298, 317, 139, 123, 320, 124, 0,
+	0, 0, 152, 0, 0, 0, 143, 0, 0, 167,
+	0, 169, 0, 0, 244, 210, 211, 263, 212, 213,
+	214, 261, 262, 260, 0, 260, 0, 0, 0, 248,
+	0, 0, 0, 0, 0, 0, 0, 82, 83, 0,
+	0, 0, 358, 359, 339, 0, 340, 342, 343, 344,
+	0, 322, 338, 414, 415, 670, 458, 588, 531, 591,
+	626, 260, 630, 631, 634, 636, 637, 639, 593, 592,
+	594, 0, 0, 597, 0, 0, 0, 0, 0, 653,
+	0, 32, 0, 704, -2, 0, 0, 0, 44, 35,
+	0, 468, 469, 0, 0, 0, 504, 472, 36, 267,
+	0, 679, 305, 320, 312, 313, 0, 0, 320, 321,
+	322, 317, 299, 0, 0, 0, 136, 0, 141, 0,
+	0, 250, 178, 179, 150, 168, 170, 172, 216, 263,
+	242, 263, 251, 252, 0, 0, 0, 0, 0, 102,
+	103, 0, 85, 86, 87, 88, 89, 0, 0, 0,
+	0, 0, 323, 672, 0, 627, 628, 0, 0, 0,
+	0, 619, 601, 650, 0, 702, 0, -2, 0, 697,
+	696, 0, 478, 505, 506, 507, 467, 289, 268, 0,
+	270, 0, 285, 0, 0, 0, 0, 0, 0, 0,
+	0, 303, 304, 307, 0, 314, 315, 308, 0, 0,
+	323, 0, 0, 173, 135, 153, 0, 0, 176, 177,
+	231, 232, 246, 249, 0, 0, 0, 90, 324, 0,
+	70, 76, 78, 79, 80, 0, 0, 0, 0, 26,
+	0, 0, 595, 596, 598, 599, 0, 0, 0, 0,
+	692, 27, 0, 470, 266, 0, 271, 0, 0, 0,
+	274, 0, 286, 276, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 131, 0, 0, 138,
+	142, 510, 0, 0, 92, 0, 0, 0, 77, 0,
+	96, 0, 368, 0, 0, 673, 671, 600, 0, 0,
+	0, 700, -2, 698, 290, 0, 272, 277, 275, 278,
+	287, 288, 279, 280, 281, 282, 283, 284, 320, 320,
+	0, 0, 132, 174, 137, 0, 0, 0, 0, 0,
+	0, 164, 0, 508, 0, 0, 0, 68, 0, 325,
+	91, 69, 336, 99, 367, 0, 0, 0, 620, 0,
+	623, 0, 269, 0, 309, 310, 0, 267, 0, 155,
+	0, 157, 158, 159, 160, 161, 162, 163, 0, 267,
+	0, 508, 267, 0, 341, 369, 0, 0, 621, 0,
+	273, 0, 289, 154, 156, 165, 0, 289, 0, 267,
+	62, 93, 0, 337, 0, 291, 0, 316, 0, 61,
+	511, 63, 0, 0, 0, 166, 0, 622, 0, 0,
+	0, 311, 370, 371,
 }
 
 var yyTok1 = [...]int{
@@ -4611,10 +4611,10 @@ yydefault:
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
 	case 204:
-		yyDollar = yyS[yypt-1 : yypt+1]
+		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:1311
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
 	case 205:
 		yyDollar = yyS[yypt-2 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 0ebfbe2..351861c 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1307,9 +1307,9 @@ time_type:
   {
     $$ = ColumnType{Type: string($1), Length: $2}
   }
-| DATETIME2
+| DATETIME2 length_opt
   {
-    $$ = ColumnType{Type: string($1)}
+    $$ = ColumnType{Type: string($1), Length: $2}
   }
 | DATETIMEOFFSET length_opt
   {
-- 
2.43.0


From 0accc44c5458c9f55dd887f58538cdf5f8d0efc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:54 +0000
Subject: [PATCH 85/85] fix: mssql: read columns in their order

---
 adapter/mssql/mssql.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index ed03a39..a323ea5 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -221,7 +221,8 @@ FROM sys.columns c WITH(NOLOCK)
 JOIN sys.types tp WITH(NOLOCK) ON c.user_type_id = tp.user_type_id
 LEFT JOIN sys.check_constraints cc WITH(NOLOCK) ON c.[object_id] = cc.parent_object_id AND cc.parent_column_id = c.column_id
 LEFT JOIN sys.identity_columns ic WITH(NOLOCK) ON c.[object_id] = ic.[object_id] AND ic.[column_id] = c.[column_id]
-WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')`, schema, table)
+WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')
+ORDER BY c.column_id`, schema, table)
 
 	rows, err := d.db.Query(query)
 	if err != nil {
@@ -347,7 +348,8 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 	ic.is_included_column
 FROM sys.indexes ind
 INNER JOIN sys.index_columns ic ON ind.object_id = ic.object_id AND ind.index_id = ic.index_id
-WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
+WHERE ind.object_id = OBJECT_ID('[%s].[%s]')
+ORDER BY ind.index_id, ic.key_ordinal, ic.index_column_id`, schema, table)
 
 	rows, err = d.db.Query(query)
 	if err != nil {
-- 
2.43.0

