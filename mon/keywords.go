package main

import "github.com/leftmike/maho/types"

// The keywords of the language and whether they are reserved.
var refKeywords = map[string]struct {
	id       types.Identifier
	reserved bool
}{
	"ACTION":      {types.ACTION, true},
	"ADD":         {types.ADD, true},
	"ALL":         {types.ALL, true},
	"ALTER":       {types.ALTER, true},
	"AND":         {types.AND, true},
	"ANY":         {types.ANY, true},
	"AS":          {types.AS, true},
	"ASC":         {types.ASC, true},
	"BEGIN":       {types.BEGIN, true},
	"BY":          {types.BY, true},
	"BIGINT":      {types.BIGINT, false},
	"BINARY":      {types.BINARY, false},
	"BLOB":        {types.BLOB, false},
	"BOOL":        {types.BOOL, false},
	"BOOLEAN":     {types.BOOLEAN, false},
	"BYTEA":       {types.BYTEA, false},
	"BYTES":       {types.BYTES, false},
	"CASCADE":     {types.CASCADE, true},
	"CHAR":        {types.CHAR, false},
	"CHARACTER":   {types.CHARACTER, false},
	"CHECK":       {types.CHECK, true},
	"COLUMN":      {types.COLUMN, true},
	"COMMIT":      {types.COMMIT, true},
	"CONSTRAINT":  {types.CONSTRAINT, true},
	"COPY":        {types.COPY, true},
	"CREATE":      {types.CREATE, true},
	"CROSS":       {types.CROSS, true},
	"DATABASE":    {types.DATABASE, true},
	"DEFAULT":     {types.DEFAULT, true},
	"DELETE":      {types.DELETE, true},
	"DELIMITER":   {types.DELIMITER, true},
	"DESC":        {types.DESC, true},
	"DETACH":      {types.DETACH, true},
	"DOUBLE":      {types.DOUBLE, false},
	"DROP":        {types.DROP, true},
	"EXECUTE":     {types.EXECUTE, true},
	"EXISTS":      {types.EXISTS, true},
	"EXPLAIN":     {types.EXPLAIN, true},
	"FALSE":       {types.FALSE, true},
	"FOREIGN":     {types.FOREIGN, true},
	"FROM":        {types.FROM, true},
	"FULL":        {types.FULL, true},
	"GROUP":       {types.GROUP, true},
	"HAVING":      {types.HAVING, true},
	"IF":          {types.IF, true},
	"IN":          {types.IN, true},
	"INDEX":       {types.INDEX, true},
	"INNER":       {types.INNER, true},
	"INSERT":      {types.INSERT, true},
	"INT":         {types.INT, false},
	"INT2":        {types.INT2, false},
	"INT4":        {types.INT4, false},
	"INT8":        {types.INT8, false},
	"INTEGER":     {types.INTEGER, false},
	"INTO":        {types.INTO, true},
	"IS":          {types.IS, true},
	"JOIN":        {types.JOIN, true},
	"KEY":         {types.KEY, true},
	"LEFT":        {types.LEFT, true},
	"NO":          {types.NO, true},
	"NOT":         {types.NOT, true},
	"NULL":        {types.NULL, true},
	"ON":          {types.ON, true},
	"OR":          {types.OR, true},
	"ORDER":       {types.ORDER, true},
	"OUTER":       {types.OUTER, true},
	"PATH":        {types.PATH, false},
	"PRECISION":   {types.PRECISION, false},
	"PREPARE":     {types.PREPARE, true},
	"PRIMARY":     {types.PRIMARY, true},
	"REAL":        {types.REAL, false},
	"RESTRICT":    {types.RESTRICT, true},
	"REFERENCES":  {types.REFERENCES, true},
	"RIGHT":       {types.RIGHT, true},
	"ROLLBACK":    {types.ROLLBACK, true},
	"SCHEMA":      {types.SCHEMA, true},
	"SELECT":      {types.SELECT, true},
	"SET":         {types.SET, true},
	"SHOW":        {types.SHOW, true},
	"SMALLINT":    {types.SMALLINT, false},
	"SOME":        {types.SOME, true},
	"STDIN":       {types.STDIN, false},
	"START":       {types.START, true},
	"TABLE":       {types.TABLE, true},
	"TEXT":        {types.TEXT, false},
	"TO":          {types.TO, true},
	"TRANSACTION": {types.TRANSACTION, true},
	"TRUE":        {types.TRUE, true},
	"UNIQUE":      {types.UNIQUE, true},
	"UPDATE":      {types.UPDATE, true},
	"USE":         {types.USE, true},
	"USING":       {types.USING, true},
	"VALUES":      {types.VALUES, true},
	"VARBINARY":   {types.VARBINARY, false},
	"VARCHAR":     {types.VARCHAR, false},
	"VERBOSE":     {types.VERBOSE, true},
	"WHERE":       {types.WHERE, true},
	"WITH":        {types.WITH, true},
}

// Known names which are not keywords.
var refKnown = map[string]types.Identifier{
	"btree":       types.BTREE,
	"columns":     types.COLUMNS,
	"config":      types.CONFIG,
	"constraints": types.CONSTRAINTS,
	"count":       types.COUNT,
	"count_all":   types.COUNT_ALL,
	"databases":   types.DATABASES,
	"description": types.DESCRIPTION,
	"field":       types.FIELD,
	"flags":       types.FLAGS,
	"indexes":     types.INDEXES,
	"info":        types.INFO,
	"maho":        types.MAHO,
	"metadata":    types.METADATA,
	"primary":     types.PRIMARY_QUOTED,
	"private":     types.PRIVATE,
	"public":      types.PUBLIC,
	"__rowid":     types.ROWID,
	"schemas":     types.SCHEMAS,
	"sequences":   types.SEQUENCES,
	"system":      types.SYSTEM,
	"tables":      types.TABLES,
	"tree":        types.TREE,
}
