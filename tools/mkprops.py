#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
GEN = "schema/generator.go"; PAR = "schema/parser.go"; ADP = "adapter/database.go"; MAIN = "sqldef.go"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Planning against an identical schema changes nothing",
 "For every schema sqldef accepts, in each of the four dialects, comparing the schema with itself yields an empty plan: nothing is printed as a change and nothing is executed. In particular the text produced by --export, fed back as the desired schema of the same database, reports that nothing is modified, and the order of independent definitions, the letter case of keywords and the layout of the text do not matter. (A current schema is one that an export describes: keys are listed in the table definition or after it, not inside columns.)",
 ["inputs", "programs"], "all schemas (tables, column types and attributes, keys, indexes, foreign keys, policies, views, triggers), all names and literal values in them, four dialects",
 "Tests re-apply a handful of schemas; the server-backed suites cannot run here. A comparison that is not reflexive shows only on the attribute combination that exercises it.",
 [GEN, PAR, "sqlparser/ast.go"], [("column/index/foreign-key/policy/view/trigger comparison", GEN)], ["schema.GenerateIdempotentDDLs", "sqldef.Run stdout"])

for cid, d, extra in [("C02", "MySQL", "including AUTO_INCREMENT, column order, secondary/unique/primary keys, foreign keys and views, and triggers as far as they are added or changed"),
                      ("C03", "PostgreSQL", "including types, NOT NULL, defaults, CHECK, identity, primary keys, indexes, foreign keys, policies and views"),
                      ("C04", "SQLite3", "for the changes SQLite3 mode supports: adding and dropping tables, columns and views"),
                      ("C05", "SQL Server", "for the changes SQL Server mode supports: added and dropped tables and columns, changed CHECK and DEFAULT constraints and IDENTITY, primary keys, indexes (with included columns, options, partitions), foreign keys and views, and triggers as far as they are added or changed")]:
    prop(cid, f"{d}: applying the plan turns the current schema into the desired one",
     f"Executing, in order, the statements planned for a {d} database on its current schema is valid at every step and ends in the desired schema, {extra}; planning again from there yields nothing.",
     ["inputs", "histories"], "all pairs (current schema, desired schema) differing in any subset of the listed features, all names and values",
     "Tests check a few dozen hand-picked one-step migrations by comparing the generated text, mostly against servers that are not available; interactions of several simultaneous differences are not covered.",
     [GEN, PAR], [("incremental simulation of the current schema while planning", GEN)], ["schema.GenerateIdempotentDDLs"])

prop("C06", "Destructive statements appear exactly for what the desired schema lacks",
 "A plan drops a table, column, index, foreign key, view or policy if and only if that object exists in the current schema and is absent from (or must be rebuilt because it differs in) the desired schema; every statement of the plan only names tables that differ between the two schemas. Objects present and equal on both sides are never altered, dropped or recreated.",
 ["inputs", "histories"], "all pairs of schemas over several tables/objects and every subset of them present on either side",
 "Tests contain single drops of single objects; wrong drops are data loss and depend on which combination of names and objects coexist.",
 [GEN], [("obsolete-object clean-up loops, membership by name", GEN)], ["schema.GenerateIdempotentDDLs"])

prop("C07", "--skip-drop never executes a destructive statement",
 "With --skip-drop, no statement that drops an object reaches the database, every other planned statement is executed unchanged and in order, and each withheld statement is reported as skipped.",
 ["inputs", "histories"], "all plans (sequences of statements) and both settings of the flag",
 "One test per dialect with a single DROP TABLE; position and mixture of drops in a plan is not covered.",
 [ADP, MAIN], [("skip test before execution", ADP)], ["adapter.RunDDLs", "sqldef.Run"])

prop("C08", "--dry-run writes nothing and prints exactly what a real run executes",
 "A dry run issues no data-changing call and opens no transaction, whatever the schemas and flags, and the sequence of statements (and skip markers) it prints is the sequence that the same command without --dry-run prints and executes.",
 ["inputs", "configurations"], "all schema pairs and all combinations of --dry-run/--skip-drop/--export",
 "Tests check one dry run per dialect; nothing compares the two modes over inputs.",
 [MAIN, ADP], [("mode dispatch in Run", MAIN), ("showDDLs / RunDDLs", MAIN)], ["sqldef.Run: database calls, stdout, exit status"])

prop("C09", "A plan is applied in one transaction, all or nothing",
 "All statements of a plan run inside a single transaction in plan order; success is reported only if every statement and the commit succeeded. On the first failure no further statement is executed, the transaction is rolled back, and the failure is reported with a non-zero exit status.",
 ["fault_sequences", "inputs"], "all plans and all positions of a failing call (begin, each statement, commit, rollback)",
 "Tests never make the database fail; the failing call is a position in a history.",
 [ADP, MAIN], [("transaction handling in RunDDLs", ADP)], ["adapter.RunDDLs", "sqldef.Run exit status"])

prop("C10", "Exporting is read-only and complete",
 "--export issues only reads, and prints every table, view and trigger definition the database reports, each once, in order, separated so that each can be re-read as one statement; an empty database prints the no-table notice.",
 ["inputs", "fault_sequences"], "all numbers and contents of tables, views and triggers reported by the database",
 "One export test with one or two tables per dialect.",
 [MAIN, ADP, "adapter/mysql/mysql.go", "adapter/sqlite3/sqlite3.go"], [("DumpDDLs", ADP)], ["sqldef.Run stdout and database calls"])

prop("C11", "A failed or truncated schema read never leads to a plan",
 "If any read of the current schema fails, at any point and in any way the database can report it (at the query, while scanning, or at the end of iteration), sqldef fails with an error and a non-zero exit status, having executed and printed no change.",
 ["fault_sequences"], "all positions and kinds of read failure during the dump, for each database adapter",
 "Tests have no fault injection; a truncated table list makes sqldef re-create or drop objects.",
 [ADP, "adapter/mysql/mysql.go", "adapter/postgres/postgres.go", "adapter/sqlite3/sqlite3.go", "adapter/mssql/mssql.go"], [("error propagation of catalog queries", "adapter/*")], ["adapter.DumpDDLs", "sqldef.Run exit status"])

prop("C12", "Any input text is parsed or rejected, never crashes or hangs",
 "For any sequence of bytes given as a schema or statement, in every dialect, the parser, tokenizer and statement splitters terminate and return a result or an error; they never panic, and never loop forever.",
 ["inputs"], "all byte strings (as whole input and as the contents of comments, literals, identifiers and after any keyword), four dialects",
 "Tests feed well-formed statements and a short list of malformed ones.",
 ["sqlparser/token.go", "sqlparser/comments.go", "sqlparser/parser.y", PAR], [("Tokenizer.Scan", "sqlparser/token.go"), ("comment handling", "sqlparser/comments.go")], ["sqlparser.Parse", "sqlparser.ParseStrictDDLWithMode", "sqlparser.SplitStatementToPieces", "schema.GenerateIdempotentDDLs"])

prop("C13", "String literals and quoted identifiers mean what they say",
 "A quoted string literal or quoted identifier written with the dialect's quoting and escaping rules is read back as exactly the bytes it denotes, whatever those bytes are, and ends exactly at its closing quote; what follows is read as if the literal had been any other. Values formatted by the library as SQL literals read back as the same value.",
 ["inputs"], "all byte strings as literal or identifier contents, all quoting styles, four dialects",
 "Tests use a fixed table of escape sequences.",
 ["sqlparser/token.go", "sqlparser/ast.go", "sqlparser/dependency/sqltypes/value.go"], [("scanString / scanLiteralIdentifier", "sqlparser/token.go"), ("encodeBytesSQL", "sqlparser/dependency/sqltypes/value.go")], ["Tokenizer.Scan", "sqlparser.String", "sqltypes.Value.EncodeSQL"])

prop("C14", "Printing a parsed statement preserves it",
 "For every query, INSERT, UPDATE, DELETE, SET, CREATE VIEW and MySQL CREATE TABLE of columns and keys that the parser accepts, operators are grouped as their documented precedence says, and the text printed for the parsed statement is accepted again, prints identically, and carries the same clauses, operators, grouping, names and literal values as the original; the letter case of keywords and the layout make no difference.",
 ["inputs", "programs"], "all such statements with a bounded number of optional clauses and nested expressions, all names, numbers and strings in them",
 "Tests hold a fixed list of ~1000 statements; operator nesting and identifier/keyword combinations are unbounded.",
 ["sqlparser/ast.go", "sqlparser/parser.y", "sqlparser/tracked_buffer.go"], [("Format methods", "sqlparser/ast.go")], ["sqlparser.Parse", "sqlparser.String"])

prop("C15", "Names and literal values survive into the emitted statements",
 "Every identifier and literal value taken from a schema appears in the planned statements quoted so that the dialect reads it back as the identical name or value; no name or value can change the meaning of the rest of the statement.",
 ["inputs"], "all table/column/index/constraint names and default/enum values expressible in the dialect's quoting",
 "Tests use plain alphanumeric names and simple defaults.",
 [GEN, PAR], [("escapeSQLName/escapeTableName/generateDefaultDefinition", GEN)], ["schema.GenerateIdempotentDDLs"])

prop("C16", "Contradictory desired schemas are rejected without any change",
 "A desired schema that defines an index, policy, view or foreign key twice on the same table, uses a foreign key without a constraint name, or indexes/policies a table it does not define, is rejected with an error and a non-zero exit status, and no statement is executed or printed as planned.",
 ["inputs", "programs"], "all such schemas, whatever the current schema and the order of the other statements",
 "Tests check two or three such errors in one fixed arrangement.",
 [GEN, PAR, MAIN], [("duplicate checks", GEN), ("error exit", MAIN)], ["schema.GenerateIdempotentDDLs", "sqldef.Run"])

prop("C17", "Planning and exporting are deterministic",
 "The same inputs always give the same plan and the same export, byte for byte, regardless of hash-map iteration order or anything else not in the input.",
 ["schedules", "inputs"], "all iteration orders of every map walked while planning, parsing, formatting or exporting",
 "A test run sees one random iteration order.",
 [GEN, "adapter/mssql/mssql.go", "adapter/postgres/postgres.go", "sqlparser/dependency/sqltypes/bind_variables.go"], [("ordered accumulation", "adapter/mssql/mssql.go")], ["schema.GenerateIdempotentDDLs", "adapter DumpTableDDL"])

prop("C18", "Splitting a script into statements loses and invents nothing",
 "Splitting SQL text into statements cuts only at top-level semicolons - never inside a string literal, quoted identifier or comment - and the pieces concatenated with their separators give back the input. Stripping leading, trailing or margin comments returns exactly the comments and the statement between them.",
 ["inputs"], "all byte strings",
 "Tests split a dozen scripts.",
 ["sqlparser/ast.go", "sqlparser/comments.go", "sqlparser/token.go"], [("SplitStatement/SplitStatementToPieces", "sqlparser/ast.go"), ("SplitMarginComments/StripLeadingComments", "sqlparser/comments.go")], ["sqlparser.SplitStatement", "sqlparser.SplitStatementToPieces", "sqlparser.SplitMarginComments", "sqlparser.StripLeadingComments"])

prop("C19", "Typed values round-trip through their encodings",
 "A typed value converted to and from its Go value, bind variable, protocol message, SQL or ASCII encoding is the same value, also within a tuple, a plan value, a resolved row or a SET statement; out-of-range and malformed numbers are rejected rather than altered; type predicates (integral, signed, float, quoted, text, binary) agree with each other for every type and with how MySQL announces it.",
 ["inputs"], "all types and all values up to a length bound",
 "Tests hold tables of a few values per type.",
 ["sqlparser/dependency/sqltypes/value.go", "sqlparser/dependency/sqltypes/bind_variables.go", "sqlparser/dependency/sqltypes/type.go", "sqlparser/dependency/sqltypes/plan_value.go", "sqlparser/analyzer.go"], [("NewValue/MakeTrusted/EncodeSQL", "sqlparser/dependency/sqltypes/value.go")], ["sqltypes API"])

prop("C20", "Connection parameters reach the server unchanged",
 "Whatever user, password, database name, host, port and socket are configured (and, for PostgreSQL, PGSSLMODE and PGSSLROOTCERT in the environment), the driver is given exactly these values: no character in one of them alters another one, selects another server or database, or changes an option of the connection. For SQLite the name is a data source name of the driver, passed as it is.",
 ["inputs", "configurations"], "one parameter at a time of up to two arbitrary bytes (and any port), the others plain or made of every separator",
 "Tests connect with one fixed account; special characters are never used.",
 ["adapter/mysql/mysql.go", "adapter/postgres/postgres.go", "adapter/mssql/mssql.go", "adapter/sqlite3/sqlite3.go"], [("mysqlBuildConfig, postgresBuildDSN, mssqlBuildDSN", "adapter/*")], ["NewDatabase: what database/sql is given, as the driver reads it"])

prop("C21", "Normalising or redacting a query keeps its meaning and leaks nothing",
 "Replacing the literals of a query by bind variables and substituting them back yields the same query; within a SELECT equal literals (of up to 256 bytes) and only equal ones share a variable; new variable names never collide with those the query uses; a variable that is missing or of the wrong kind is refused; and the redacted text tells no string, 64-bit integer or decimal literal, wherever in the query the value stands (lengths of types and the separator of GROUP_CONCAT are no values).",
 ["inputs", "programs"], "all statements and literal values up to a bound",
 "Tests hold about twenty queries.",
 ["sqlparser/normalizer.go", "sqlparser/redact_query.go", "sqlparser/parsed_query.go", "sqlparser/encodable.go"], [("normalizer.convertSQLVal", "sqlparser/normalizer.go")], ["sqlparser.Normalize", "sqlparser.RedactSQLQuery", "ParsedQuery.GenerateQuery"])

prop("C22", "What the library says of and adds to a statement fits its text",
 "The kind of statement told from the text alone (SELECT, INSERT, ... BEGIN, OTHER; whether it changes rows) is the kind the parser finds, whatever comments, blanks and letter case surround the first word. A condition, order or limit added to a parsed query, a replaced part of an expression and the impossible form of a query change that and nothing else in the printed text: an added condition must hold besides those already there. What is told about a part - value, NULL, column, list of values, plain table name, aggregate, directive in a comment, type of a column, equality of names, the name of a variable made of a name - agrees with its text.",
 ["inputs", "programs"], "all statements of the grammar of C14 with a bounded number of choices, all names, numbers and strings in them",
 "Tests hold a few statements for each function.",
 ["sqlparser/analyzer.go", "sqlparser/ast.go", "sqlparser/comments.go", "sqlparser/impossible_query.go"], [("Preview", "sqlparser/analyzer.go"), ("AddWhere, AddHaving, ReplaceExpr", "sqlparser/ast.go"), ("FormatImpossibleQuery", "sqlparser/impossible_query.go")], ["sqlparser.Preview", "sqlparser.IsDML", "Select.AddWhere", "sqlparser.ReplaceExpr", "sqlparser.FormatImpossibleQuery", "sqlparser.ExtractCommentDirectives"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
