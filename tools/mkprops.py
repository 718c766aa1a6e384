#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per entry of P, in order)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text},
      "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})

B = "storage/basic/basic.go"; T = "storage/basic/btree.go"; S = "storage/storage.go"
# ---------------------------------------------------------------- storage
p("C01", "Concurrent store transactions are serializable and race-free",
  "Any number of goroutines may run transactions against one store at the same time. Every history of committed transactions is equivalent to running them one at a time in an order consistent with real time: no lost update, no dirty or non-repeatable read, no write skew, no half-visible commit; an uncommitted or rolled-back change is never seen by another transaction. No transaction gets stuck while the others finish, and no memory access races.",
  ["schedules", "histories"],
  "all interleavings of concurrent goroutines each running begin / scan / insert / update / delete / commit-or-rollback transactions over shared tables",
  "The storage tests run at most a handful of transactions and assert on fixed scripts; isolation must hold for every interleaving, and the race detector is never run.",
  [B, T, S], [("one writer at a time through the store mutex taken in Begin and released in Commit/Rollback", B+":store.Begin"),
              ("copy-on-write clone of the tree before the first write", B+":transaction.forWrite")],
  [("store.tree", "last committed version of all relations", B)], ["storage.Store.Begin", "storage.Transaction", "storage.Rows"])
p("C02", "Commit publishes everything at once; rollback leaves no trace",
  "After Commit every later transaction sees all the row and table-definition changes of the transaction and nothing else changed; after Rollback every later transaction sees exactly the store as it was before the transaction began. This holds whatever mix of table creates, drops, inserts, updates, deletes, scans and failed operations the transaction performed.",
  ["histories"], "all sequences of transactions over several tables, each ended by commit or rollback, including failing operations",
  "Tests check a few scripted commit/rollback sequences on one table; the guarantee is over every history and every mix of operations.",
  [B, T], [("private clone swapped in at commit, dropped at rollback", B+":transaction.Commit, transaction.Rollback, transaction.forWrite")],
  [("transaction.tree", "the transaction's private version", B)], ["storage.Transaction", "storage.Table.Rows"])
p("C03", "A table is a map from primary key to row; scans see a stable snapshot",
  "Within a transaction a table behaves as a map from primary key to one row: a successful insert adds the row, an update changes exactly the named columns of exactly the addressed row (moving it when key columns change), a delete removes exactly that row, and every later scan in the transaction sees the result. A scan that is already open keeps returning the rows and values that were there when it was opened, each exactly once, whatever is written during it; the current row can be updated or deleted while scanning.",
  ["histories"], "all sequences of inserts, scans, updates and deletes through row references, including writes while scans are open, over tables with any key",
  "Tests replay fixed tables of operations; the property is over every operation sequence, key shape and interleaving of writes with open scans.",
  [B, T], [("scan materialised at open", B+":table.Rows"), ("row reference addressed by encoded key", B+":rowRef.Update, rowRef.Delete")],
  [("rows.items", "snapshot returned by the scan", B)], ["storage.Rows.Next", "storage.Rows.Current", "storage.RowRef"])
p("C04", "Scans return exactly the rows in range and predicate, in key order",
  "A scan returns every row of the table whose primary key is between the minimum and maximum row (both inclusive; either may be absent) and whose predicate column satisfies the predicate (a NULL never does), and no other row, in primary-key order with each DESC key column reversed. When a column list is given the rows contain exactly those columns in that order, repeated or reordered as asked; otherwise all columns.",
  ["inputs", "histories"], "all tables, key definitions (any column types, ascending or descending, multi-column), bounds, predicates and projections",
  "Tests use a few small tables with mostly integer keys; the guarantee is over all key types, directions, bounds and predicates.",
  [B, T, "encode/key.go"], [("ordered tree over encoded keys", T+":lessItems"), ("range, predicate and projection evaluation", B+":table.Rows, predicateFunction, rows.Next")],
  [], ["storage.Table.Rows"])
p("C05", "Primary keys stay unique and a failed row operation changes nothing",
  "At no time do two rows of a table have equal primary keys: inserting a row, or updating one to a key that another row already has, fails with an error. An insert or update of a row that fails, for a duplicate key or a value that does not fit its column, leaves the table exactly as it was before that row was attempted, and the transaction remains usable.",
  ["histories", "inputs"], "all sequences of inserts and key-changing updates that collide or carry bad values, including keys with NULL, signed zeros, NaN, empty and binary strings, ascending or descending",
  "Tests assert that an error is returned for a few duplicates; they do not look at the table after a failed update, nor across key types.",
  [B, "encode/key.go"], [("duplicate check before insert", B+":table.Insert"), ("key-changing update", B+":rowRef.Update")],
  [], ["storage.Table.Insert", "storage.RowRef.Update"])
p("C06", "Tables are isolated from each other and keep their definition",
  "Operations on one table never change the rows or definition of another, whatever their table ids. A table created and committed can be opened by every later transaction under the definition it was created with, reports that name, version, column names, column types and key unchanged, and refuses to open under any other definition; a dropped table cannot be opened, and a table created again under the same id starts empty.",
  ["histories", "configurations"], "all interleavings of create, drop, open and row operations over several tables with arbitrary ids, names, columns and keys",
  "Tests open each of a few tables with a fixed definition; cross-table independence and exact metadata round-trip are over all ids, definitions and histories.",
  [B, T, "types/identifier.go"], [("relation id derived from table id", T+":toRelationId"), ("table definition stored as a row and compared at open", B+":setTableType, OpenTable")],
  [("relation 0", "table definitions", B)], ["storage.Transaction.OpenTable", "storage.Table"])
p("C07", "Stored rows always conform to the table's column types",
  "Every row a scan returns has exactly one value per column, each NULL or of the column's type and within the column's size, however the value got there: values offered by insert or update are converted to the column type when they convert and rejected with an error when they do not. A NULL offered for a NOT NULL column, a string or bytes longer (in bytes) than the column, an out-of-range SMALLINT or INT, or a row with too many values is rejected by insert and by update.",
  ["inputs", "histories"], "all column types and all offered values, by insert and by update of key and non-key columns",
  "Tests insert a few well-typed rows; conformance is over all value/type pairs and both write paths.",
  [B, "types/value.go"], [("row conversion before storing", B+":table.Insert, rowRef.Update"), ("value conversion", "types/value.go:ConvertValue, ConvertRow")],
  [], ["storage.Table.Insert", "storage.RowRef.Update", "storage.Rows.Next"])
p("C08", "Transaction and scan lifecycle: misuse is reported, the store never wedges",
  "A transaction ends at most once: a second Commit or Rollback returns an error and has no effect. Misuse is reported by a panic and changes nothing: ending a transaction with open scans, Current before the first Next, using or closing a closed scan, updating or deleting a row that is gone, opening or dropping a table that does not exist, creating one that does, column and value lists of different lengths. After any such sequence, once open scans are closed and the transaction is ended, new transactions run and see the right state.",
  ["histories"], "all sequences of lifecycle calls, valid or not, over transactions, scans and row references",
  "Tests check individual panics in isolation; that no sequence of misuse leaks the store lock, releases it twice or corrupts state is over all histories.",
  [B], [("completed check and open scan count", B+":transaction.Commit, transaction.Rollback"), ("scan state", B+":rows.Next, rows.Current, rows.Close")],
  [("transaction.rowsCount", "open scans", B), ("transaction.st", "nil once completed", B)], ["storage.Transaction", "storage.Rows", "storage.RowRef"])
# ---------------------------------------------------------------- encode
p("C09", "Encoded keys sort exactly as the rows they encode",
  "For any key definition and any two rows, comparing the encoded keys as bytes gives the order of the rows: column by column, NULL first in both directions, values by their natural order (false before true, numeric order for integers and for floats with NaN below all numbers and both zeros equal, bytewise for strings and bytes), reversed for descending columns. The encoded keys are equal exactly when the key columns are equal, and no key is at or above the maximum key.",
  ["inputs"], "all pairs of rows whose corresponding columns have the same type (or NULL), and all key definitions of any length and direction",
  "The tests compare neighbouring entries of a hand-written list for single columns; order preservation and injectivity quantify over all pairs, and over composite keys where one column's bytes can run into the next.",
  ["encode/key.go", "encode/encode.go"], [("tagged, escaped and complemented encoding", "encode/key.go:MakeKey, encodeKeyBytes")], [], ["encode.MakeKey", "encode.MaxKey"])
p("C10", "Integer codecs round-trip and decoding is safe on any bytes",
  "Decoding what was encoded returns the same number and exactly the bytes that followed it, for every 64-bit unsigned and signed value, whatever the buffer already held or what follows. The fixed-width encodings are big-endian, so they sort as the numbers do. Decoding never reads past its input or panics, and reports truncated and over-long input as failure.",
  ["inputs"], "all values, all buffers before and after, all byte strings given to the decoders",
  "Tests round-trip a list of constants; the property quantifies over the whole 64-bit domain and over arbitrary malformed input.",
  ["encode/encode.go"], [("varint and zigzag codecs", "encode/encode.go:EncodeVarint, DecodeVarint, EncodeZigzag64, DecodeZigzag64")], [], ["encode.*"])
# ---------------------------------------------------------------- types
V = "types/value.go"; I = "types/identifier.go"
p("C11", "Value comparison is a total order consistent with key order",
  "Comparing values is a total preorder over all values: antisymmetric, transitive, total, with NULL lowest, then booleans, numbers, strings, bytes. Integers and floats compare by exact numeric value with each other, NaN sorts below every other number and equal to itself. For two values of the same type the comparison agrees with the order of their encoded ascending keys, so scans and comparisons never disagree.",
  ["inputs"], "all pairs and triples of values of every type, including NaN, infinities, signed zeros and integers beyond 2^53",
  "Tests compare a fixed list of neighbours; order axioms quantify over all triples and the interesting breaks sit at NaN and beyond 2^53.",
  [V, "encode/key.go"], [("per-type compare and cross-type rank", V+":Compare")], [], ["types.Compare", "encode.MakeKey"])
p("C12", "Casts and column conversions are faithful or fail",
  "Casting or converting a value either fails with an error or returns a value of the requested type that denotes the same thing: integers and floats print to text that parses back to the same value, text and bytes keep their bytes, accepted boolean and number spellings mean what they say, a float cast to an integer loses only its fraction, and a float outside the integer range or NaN is refused rather than turned into some other integer. Conversion to a column never returns a value that exceeds the column's size or a NULL for a NOT NULL column, never rejects a value that already conforms, and converting a second time changes nothing.",
  ["inputs"], "all values and all column types, and all rows against all column lists",
  "Tests list a few pairs; faithfulness, range and idempotence quantify over all values and types.",
  [V], [("casts", V+":CastValue"), ("size and nullability checks", V+":ConvertValue, ConvertRow")], [], ["types.CastValue", "types.ConvertValue", "types.ConvertRow"])
p("C13", "Identifiers are canonical, bounded and survive printing and storing",
  "Two unquoted spellings give the same identifier exactly when they are the same keyword or equal ignoring case, two quoted ones exactly when they are equal, and a quoted lower-case spelling gives the same identifier as the unquoted one when it is not a keyword; names are cut to the maximum length on a character boundary and never grow beyond it. The text of an identifier, read back as a quoted name, gives the same identifier unless it is a keyword, and storing and loading an identifier, reserved, unreserved keyword or ordinary, always gives back the identical one.",
  ["inputs"], "all strings, quoted or not, including non-ASCII, over-long and keyword spellings in any case",
  "Tests use a dozen short ASCII names; keyword identifiers, case folding that changes byte length and over-long names are not covered.",
  [I], [("interning table", I+":lookupID, ID"), ("stored form", I+":Identifier.GobEncode, GobDecode")], [("identifiers, names, keywords", "interning maps", I)], ["types.ID", "types.Identifier.String", "gob"])
p("C14", "Identifiers are safe and consistent under concurrent use",
  "Any number of goroutines may create, look up, print, encode and decode identifiers at the same time. All of them get the same identifier for the same name and different identifiers for different names, an identifier always prints as the name it was created from, and no memory access races.",
  ["schedules"], "all interleavings of concurrent identifier creation, lookup, printing and (de)coding, in particular first use of one name by many goroutines",
  "Tests are single-threaded and never run under the race detector.",
  [I], [("double-checked creation under the lock", I+":ID"), ("name lookup", I+":Identifier.String")], [("names, identifiers, lastIdentifier", "interning state shared by all goroutines", I)], ["types.ID", "types.Identifier.String"])
# ---------------------------------------------------------------- engine
E = "engine/engine.go"
p("C15", "A stored table definition reads back as what was created",
  "A table's definition, as created (column names, column types, primary key with directions), is returned unchanged by opening it in the same transaction and in every later one, also through a new engine on the same store; encoding and decoding a table definition, with its indexes, is the identity. A definition too large to store is refused with an error, never stored in part.",
  ["inputs", "histories"], "all table definitions: any column names including keyword spellings, all column types and sizes, any key and index directions",
  "Tests round-trip one or two small definitions; fidelity is over all names, types, sizes, keys.",
  [E, "engine/init.go", I, "types/column.go"], [("gob encoding of the definition", E+":TableType.Encode, DecodeTableType")], [], ["engine.Transaction.OpenTable", "engine.TableType"])
p("C16", "The catalog of databases, schemas and tables follows every history",
  "After any history of transactions the engine lists exactly the databases that were created and not dropped, and for each the schemas created and not dropped by committed transactions (and by the transaction itself), in name order; tables open exactly if they were created. Creating something that exists, dropping or listing under something that does not (unless IF EXISTS), creating a schema in a missing database or a table in a missing schema fails and changes nothing. (What becomes of the schemas and tables inside a database or schema that is dropped is not promised.) Rolled-back work leaves no trace, a finished transaction refuses to commit or roll back again, and a fresh store contains exactly the system and maho databases with their schemas and metadata tables.",
  ["histories"], "all sequences of database, schema and table operations over commits, rollbacks and re-created engines",
  "Tests run a few fixed scripts; the catalog guarantee is over every history, name and abort point.",
  [E, "engine/init.go", "engine/typedtable.go"], [("metadata kept in typed tables of the store, in the same transaction", E+":CreateSchema, DropSchema, ListSchemas, CreateTable, OpenTable, CreateDatabase, DropDatabase, ListDatabases"), ("initial contents", "engine/init.go:Init")],
  [("databases, schemas, tables, sequences", "metadata relations", E)], ["engine.Engine", "engine.Transaction"])
p("C17", "Every table gets its own id, never shared, reserved or changed",
  "Each table created through the engine has a table id above the reserved range, different from that of every other table that exists, for as long as it exists; it is the same in every transaction that opens the table. This holds across rolled-back and failed creations, concurrent transactions and engines re-created on the same store.",
  ["histories", "schedules"], "all histories of table creations with failures, rollbacks, concurrent transactions and engine re-creation",
  "Tests look at one or two ids; uniqueness is over every history.",
  [E, "engine/init.go"], [("sequence row read and incremented in the creating transaction", E+":nextTableId")], [("next_table_id", "sequence row", E)], ["engine.Table.TableId"])
p("C18", "Typed tables store and return Go structs faithfully",
  "The table made for a struct type has one column for each field, in order, with the name, type, size, nullability and key the field and its tag say; a struct with a field or tag that cannot be a column is refused by a panic. A struct inserted into a typed table is returned by lookup of its key, by a scan over any range containing it and by conversion of its row with every field equal, for every supported field type, NULL pointers included; scans visit exactly the structs in the range in key order and stop early only when told to. Update changes exactly the fields named in the update value of exactly the visited rows, delete removes exactly the rows asked for, a lookup without a match reports end of data, and an error from the callback stops the walk, is returned and leaves no scan open.",
  ["inputs", "histories"], "all struct types built from the supported field types and tags, all field values, ranges and callback outcomes",
  "Tests use one or two structs with string and int64 fields; fidelity is over all supported field types, values, ranges and callback errors.",
  ["engine/typedinfo.go", "engine/typedtable.go"], [("struct to row and row to struct conversion", "engine/typedtable.go:structToRow, RowToStruct, structToColsVals"), ("column derivation from field names and tags", "engine/typedinfo.go:MakeTypedInfo"), ("range walk", "engine/typedtable.go:typedTableSelect")],
  [], ["engine.TypedTable*", "engine.TypedInfo.RowToStruct"])
# ---------------------------------------------------------------- evaluate
X = "evaluate/session.go"; Y = "evaluate/evaluate.go"
p("C19", "Session transactions: autocommit, explicit, and every begin is ended once",
  "A statement outside an explicit transaction runs in its own transaction, committed when the statement succeeds and rolled back when it fails. Between BEGIN and COMMIT or ROLLBACK all statements use the one transaction BEGIN started, ended exactly once by that COMMIT or ROLLBACK; nested BEGIN, and COMMIT or ROLLBACK without BEGIN, fail and start or end nothing; creating or dropping a database inside a transaction is refused. Every error from the engine reaches the caller (when rolling back a failed statement fails as well, the statement's own error; a failing look-up of a table about to be created counts as not found), and after COMMIT or ROLLBACK, even a failing one, the session is usable and outside a transaction.",
  ["histories", "fault_sequences"], "all sequences of statements, with engine failures injected at any call (begin, statement, commit, rollback)",
  "Tests run one script without faults; the guarantee is over every statement sequence and every failing call.",
  [X, Y], [("session transaction state", X+":Session.Evaluate")], [("Session.tx", "open explicit transaction", X)], ["engine.Engine", "engine.Transaction (recording wrapper)", "Session.Evaluate"])
p("C20", "Unqualified names resolve by the session's current database and schema",
  "A table name without schema, or with schema but without database, and a schema name without database, are completed with the session's current database and schema before the statement runs; a part that is given is never replaced. SET DATABASE, SET SCHEMA and USE change the defaults for later statements of that session only, other settings are refused, and every table or schema a statement creates, drops or changes is completed this way. (The value of SET and USE is read as an unquoted name; tables a query reads or a foreign key refers to are not resolved at this stage.)",
  ["programs", "histories"], "all statement kinds with names qualified to any depth, and all histories of default changes over several sessions",
  "Tests resolve one statement of some kinds with fixed defaults.",
  [X, "parser/sql/stmt.go", "parser/sql/datadef.go", "parser/sql/query.go"], [("resolver", X+":Session.ResolveTable, ResolveSchema"), ("per-statement Resolve", "parser/sql/*.go:Resolve")], [], ["engine calls", "sql.Stmt.Resolve"])
p("C21", "Each DDL statement performs exactly the engine operations it states",
  "Evaluating CREATE TABLE creates the named table with exactly the stated columns, types and primary key (column order and direction as written), CREATE INDEX the stated index with the stated key, and CREATE/DROP SCHEMA, TABLE, INDEX and DATABASE act on exactly the named objects and in order, with the given IF EXISTS flag for databases and schemas. IF NOT EXISTS on an existing object succeeds and does nothing; without it the statement fails and does nothing; a key naming an unknown column, or an index on a missing table, fails and creates nothing; the first engine error stops the statement and is returned.",
  ["programs", "fault_sequences"], "all DDL statements, against all catalog contents, with engine failures at any call",
  "The repository's evaluate tests do not even build at this commit; the translation must hold for all statements.",
  [Y, X], [("statement translation", Y+":EvaluateCreateTable, EvaluateCreateIndex, EvaluateDropTable, EvaluateDropIndex, indexKeyToColumnKey")], [], ["engine.Transaction (recording wrapper)"])
p("C22", "Concurrent sessions are isolated end to end",
  "Sessions running DDL scripts concurrently on one engine behave as if each transaction ran alone in some order: exactly one of several sessions creating the same database, schema or table succeeds, no session sees another's uncommitted objects, every successful statement's effect is there after its transaction committed and no failed or rolled-back one's is. No session gets stuck and no memory access races.",
  ["schedules"], "all interleavings of concurrent sessions running autocommit and explicit transactions over shared and private names",
  "Tests use one session at a time and never run under the race detector.",
  [X, E, B, I], [("store-level serialisation under sessions", B+":store.Begin"), ("one engine transaction per session transaction", X+":Session.Evaluate")], [], ["Session.Evaluate", "engine.Engine"])
# ---------------------------------------------------------------- parser
R = "parser/parser.go"; C = "parser/scanner/scanner.go"
p("C23", "The parser is total: any input ends in statements and errors",
  "Whatever text it is given, up to a megabyte, the parser consumes it in bounded work and returns, statement by statement, either a statement or an error, until it reports the end of input; it never panics, hangs or reads on after the end. The work grows no faster than polynomially with the length of the input, and printing any statement or expression it returned yields text without panicking.",
  ["inputs"], "all byte strings, including invalid UTF-8, unterminated literals and comments, huge numbers and nesting as deep as a megabyte allows",
  "Tests parse a few hundred well-formed strings; totality is over all inputs.",
  [R, C, "parser/sql"], [("panic-based error recovery", R+":Parse"), ("scanner", C+":Scan")], [], ["parser.NewParser", "Parser.Parse", "sql.Stmt.String"])
p("C24", "Errors stay inside their statement; the rest of the script is unaffected",
  "In a script of statements separated by semicolons, each statement parses to the same result or fails exactly as it would on its own, whatever comes before or after it: an error, or the few errors a bad statement may give, consumes its own statement only, up to its semicolon, an empty statement is skipped without losing its neighbour, and no text of a bad statement is ever taken for another statement. Semicolons inside literals, quoted identifiers and comments do not end a statement.",
  ["programs", "fault_sequences"], "all scripts mixing valid, invalid and empty statements with any separators",
  "Tests parse statements one at a time, with a handful of recovery cases.",
  [R, C], [("skip to semicolon after an error", R+":Parse"), ("end of statement check", R+":expectEndOfStatement")], [], ["Parser.Parse"])
p("C25", "Expressions group by operator precedence and parentheses",
  "An expression parses to the tree its operators' precedence and parentheses demand: the binary operators by the documented precedence levels and left associative, unary minus and NOT as documented, function calls, subqueries, IN, ANY/ALL/SOME, EXISTS, IS NULL and IS NOT NULL binding as written where parentheses or their place leave one reading, wherever the expression occurs. Parentheses override precedence and never change the value otherwise.",
  ["programs"], "all expressions of any depth over all operators",
  "Tests contain some dozens of expressions; regrouping must be right for every combination and depth.",
  [R, "parser/sql/expr.go"], [("precedence adjustment of a right-leaning tree", R+":parseExpr, parseSubExpr, adjustPrecedence")], [], ["Parser.ParseExpr"])
p("C26", "Literals and quoted names denote exactly their value",
  "String, escape-string, bytes, hex, integer and float literals and quoted identifiers parse to exactly the value they denote, for every value that type can hold: doubled quotes and every escape are interpreted (hex and octal escapes name a code point in strings and a byte in bytes literals), strings separated by white space with a line end are one (without a line end they are not), a number ends where its digits end, adjacent tokens never disturb a literal already read, integers cover the whole 64-bit range and floats round correctly. A literal that denotes no value (bad escape, odd hex digits, out-of-range code point or number, missing end quote) and a character that starts no token is an error, never another value.",
  ["inputs"], "all values of each literal kind in every spelling, in any position of a statement with any number of other literals",
  "Tests scan a list of literals one at a time; fidelity is over all values and spellings, and statements with several literals expose sharing between tokens.",
  [C, R], [("literal scanning", C+":scanString, scanBytes, scanHexBytes, scanNumber")], [("scanner buffer", "reused between tokens", C)], ["Parser.Parse", "scanner.Scan"])
p("C27", "Layout, comments and keyword case never change the meaning",
  "Changing the case of keywords and unquoted identifiers, the kind and amount of white space, or adding or removing line and block comments between tokens never changes the statement that is parsed or whether it parses. Quoted identifiers and literals are exempt: their text is kept as it is.",
  ["programs"], "all statements and all re-layouts of their token sequences",
  "Tests write each statement in one layout.",
  [C, R, I], [("white space and comment skipping", C+":Scan"), ("keyword folding", I+":ID")], [], ["Parser.Parse"])
p("C28", "Parsed statements say exactly what the text says",
  "For every statement form in the grammar the parsed statement holds exactly the clauses written, each in its place: names with their qualification, column lists, types with size, NOT NULL and defaults, constraints, keys with direction, values, joins with kind and condition, WHERE, GROUP BY, HAVING, ORDER BY, options (of one given twice the last value) and flags. Nothing is dropped, reordered, invented or carried over from another statement, and text that is no statement of the grammar is refused. (How a CROSS JOIN followed by another join without parentheses nests is not promised.)",
  ["programs"], "all statements the grammar can generate",
  "Tests contain a few examples per statement kind; fidelity is over all combinations of optional clauses.",
  [R, "parser/sql"], [("recursive descent productions", R)], [], ["Parser.Parse", "sql AST"])
p("C29", "A printed statement or expression parses back to the same thing",
  "Printing a parsed expression or statement and parsing the text gives back the same expression or statement, whenever its names can be written unquoted and its literals are integers, text strings, booleans and NULL. Printing includes every clause, so statements that differ print differently. (Exempt: sizes of column types and types printed under a wider name, names of DEFAULT and NOT NULL constraints, unnamed foreign keys, SHOW CONFIG, string values and order of options, and the column a CHECK is written at.)",
  ["programs"], "all parsed expressions and statements over that vocabulary",
  "Tests compare printed text for a few statements.",
  ["parser/sql/expr.go", "parser/sql/query.go", "parser/sql/datadef.go", "parser/sql/stmt.go"], [("String methods", "parser/sql/*.go")], [], ["sql.Stmt.String", "sql.Expr.String"])
p("C30", "Read failures surface, and errors point at where they are",
  "When the reader fails, the failure is returned by the parser as an error (between statements it can be told with errors.Is), never taken for the end of input or as part of a statement: statements completed by a semicolon before the failure are returned and no statement is made of the cut-off text. (Where parsing resumes after a failure inside a comment or literal is not promised.) An error message names the source and the line and column of the token it complains about.",
  ["fault_sequences", "inputs"], "all scripts, all positions at which the reader fails, and all positions of a syntax error over many lines",
  "Tests read from strings that never fail and do not check positions in messages.",
  [R, C], [("reader error propagation", C+":readRune"), ("position tracking", C+":ScanCtx.Position")], [], ["Parser.Parse error"])
p("C31", "COPY hands the data lines over untouched and resumes after them",
  "COPY ... FROM STDIN leaves the reader at the first data line: the lines up to and including the end marker reach the consumer byte for byte, with no byte lost, added or taken by the parser, and the parser continues with the statement after them. The parsed COPY names exactly the table, columns and delimiter written.",
  ["inputs", "programs"], "all data contents including quotes, semicolons, comments and multi-byte text, and all statements around the COPY",
  "Tests parse a COPY statement with little or no data after it.",
  [R, C], [("hand-over of the reader", R+":parseCopy")], [], ["sql.Copy", "Parser.Parse"])
p("C32", "CREATE TABLE definitions are accepted exactly when well formed",
  "A CREATE TABLE is rejected when two columns, or two named constraints, have the same name, when more than one primary key is given, when a key names a column twice, or when the same key is declared twice; column types get exactly the size their name implies and sizes above the maximum are rejected. Every definition free of these faults, and of names equal to one generated for an unnamed key, is accepted, with each unnamed key given a name made of its columns.",
  ["programs"], "all table definitions, well formed or with a fault of one of these kinds at any place",
  "Tests have one example of some of these faults.",
  [R], [("column and constraint checks", R+":parseCreateColumns, addKeyConstraint, addConstraint, parseColumnType, parseKey")], [], ["Parser.Parse"])
p("C33", "The console answers every statement of its input in order and ends",
  "The console program reads its standard input to the end and, for every statement in order, prints either the statement or an error message on a line after its prompt, without waiting for the statements after it, then exits with success. One bad statement never stops it or swallows the ones after it, and its answers are the ones the parser gives for the same text.",
  ["programs"], "all scripts given on standard input",
  "There is no test of the program.",
  ["main.go"], [("console loop", "main.go:main")], [], ["process stdin/stdout/exit status"])
p("C34", "A failing store is reported and leaves the engine's catalog as it was",
  "Whatever call on its store fails, an operation of the engine or of a typed table during which it fails returns that failure to its caller, rather than success, a partial result, or an answer such as 'not found'; a walk over rows ends there. Init and the database operations end the store transaction they began whether or not they succeed, so the store is never left locked, and have no effect when they fail: Init can be run again. An operation inside a transaction leaves that transaction open, and after it is rolled back, or its commit failed, nothing of it is there. Every scan opened is closed, and every call on the store carries the context given to the operation, so a store that honours cancellation sees it. A statement of a session which reports success has done what it says. (Exempt: failing to close a scan; what is left in a transaction by an operation that failed after its row was written, until it is rolled back; which of two failures is reported when the rollback fails, too.)",
  ["fault_sequences", "histories"],
  "all operations of the engine, of sessions and of typed tables, in all catalogs, with each call on the store failing before or after it took effect, with any error, alone or with every later call",
  "No test runs the engine over a store that fails; the in-memory store never does, so no error path of the engine is ever taken.",
  ["engine/engine.go", "engine/typedtable.go", "engine/init.go", S],
  [("rollback on error", "engine/engine.go:withTransaction, engine/init.go:Init"), ("error propagation and close of the scan", "engine/typedtable.go:typedTableSelect")],
  [("store transaction", "open between Begin and Commit or Rollback", "engine/engine.go:transaction.tx")], ["storage.Store (wrapped)", "engine.Engine", "engine.TypedTable*"])
p("C35", "Row notation reads what it says; row comparisons see every difference",
  "Text in the notation the store and engine tests are written in - values, rows, names and column lists, in any spacing and letter case - reads as exactly the values, rows, names, types and keys it says, and takes nothing of the text after it; text that is damaged or cut off is refused with an error (the Must forms panic) and yields nothing. Rows are printed in the same notation, so that they read back as equal rows, with the separator between them and nowhere else. Comparing rows orders them column by column, a prefix first; two lists of rows are equal exactly when their rows are equal pairwise, or, unordered, when one is a rearrangement of the other. (Integers and decimals without sign or exponent, strings without quotes which do not start with a backslash.)",
  ["inputs"],
  "all values, rows and column lists the notation can say, in all spellings, and all texts it cannot; all pairs of lists of rows",
  "The storage and engine suites decide what is right with these functions: a comparison that misses a difference, or a notation that reads something else, makes every one of those tests pass; their own tests have a few examples.",
  ["testutil/parse.go", "testutil/rows.go", "testutil/panicked.go"],
  [("notation", "testutil/parse.go"), ("comparison", "testutil/rows.go:CompareRows, RowsEqual")], [], ["testutil"])
p("C36", "Finished work leaves nothing behind",
  "A program may go on for ever: when operations end where they began - transactions committed or rolled back, scans closed, sessions and stores dropped, definitions made and dropped, statements parsed, whether they succeeded or failed - repeating them takes no more memory, goroutines or open files, however often they were done before. (What the data as committed needs is not counted; nor are names seen for the first time, which stay known.) The memory the console needs does not depend on how many statements it has been given.",
  ["histories"], "all cycles of operations that end where they began, and any number of repetitions",
  "Tests run each operation once or a few times and end; what is kept too long only shows in a program that goes on.",
  [S, B, "engine/engine.go", "engine/typedtable.go", "parser/parser.go", "main.go"],
  [("transactions and scans", B), ("sessions", "engine/engine.go"), ("scan buffers", "parser/scan.go")],
  [("live heap", "what is reachable after the cycles, compared with before", "runtime.MemStats")], ["runtime heap, goroutines, /proc/self/fd"])
p("C37", "What is passed in stays the caller's; what is returned is the caller's",
  "Calls do not change the arguments they are given - rows, values, bytes, names, column lists, keys, predicates, structs - and do not depend on them afterwards: the caller may change or reuse them as soon as the call has returned. Results are the caller's, too: changing a returned row, its bytes, a list or a parsed statement changes nothing that is stored, and no later result; nor do later calls change a result returned earlier. (Exempt: what a call is there to fill in, RowsEqual reordering its arguments, evaluating a statement resolving the names in it, and a conversion of bytes to bytes returning what it was given.)",
  ["histories", "inputs"], "all operations of the store, the engine, typed tables, the parser, the codec and conversions, with every argument and result changed afterwards",
  "Tests hand over literals they never touch again and look at results at once.",
  [B, "engine/engine.go", "engine/typedtable.go", "parser/parser.go", "storage/encode/", "types/"],
  [("rows and bytes stored", B+":Insert, Update, Next"), ("definitions", "engine/engine.go"), ("typed rows", "engine/typedtable.go")],
  [], ["storage.Store", "engine.Engine", "TypedTable*", "Parser.Parse"])
p("C38", "What is separate does not meet, however much of it runs at once",
  "Parsers, stores, engines, sessions, typed tables, keys, conversions and names used by different goroutines at the same time, each goroutine with its own, neither race nor disturb each other: every one of them behaves exactly as it does alone, whatever the others are doing and whether they succeed or fail.",
  ["schedules", "histories", "inputs"], "all numbers of goroutines, all mixtures of work they do, equal or different, and all ways their steps interleave",
  "Tests run one thing at a time; what is shared behind the scenes - scratch space, caches, tables of names - is never met by two at once.",
  ["encode/key.go", "parser/parser.go", "parser/scanner/scanner.go", "engine/typedinfo.go", "engine/engine.go", B, "types/identifier.go", "types/value.go"],
  [("table of names", "types/identifier.go:mutex"), ("session numbers", "evaluate/session.go:sessionId")],
  [], ["Parser.Parse", "storage.Store", "engine.Engine", "encode.MakeKey", "types.CastValue"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
