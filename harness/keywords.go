package main

import "sort"

// frozenKeywords is the keyword list of the pinned commit.
var frozenKeywords = map[string]bool{
	"ABS":                              true,
	"ADD":                              true,
	"ALL":                              true,
	"ALLOCATE":                         true,
	"ALTER":                            true,
	"AND":                              true,
	"ANY":                              true,
	"ARE":                              true,
	"ARRAY":                            true,
	"ARRAY_AGG":                        true,
	"ARRAY_MAX_CARDINALITY":            true,
	"AS":                               true,
	"ASC":                              true,
	"ASENSITIVE":                       true,
	"ASYMMETRIC":                       true,
	"AT":                               true,
	"ATOMIC":                           true,
	"AUTHORIZATION":                    true,
	"AVG":                              true,
	"BEGIN":                            true,
	"BEGIN_FRAME":                      true,
	"BEGIN_PARTITION":                  true,
	"BETWEEN":                          true,
	"BIGINT":                           true,
	"BINARY":                           true,
	"BLOB":                             true,
	"BOOLEAN":                          true,
	"BOTH":                             true,
	"BY":                               true,
	"BYTEA":                            true,
	"CALL":                             true,
	"CALLED":                           true,
	"CARDINALITY":                      true,
	"CASCADED":                         true,
	"CASE":                             true,
	"CAST":                             true,
	"CEIL":                             true,
	"CEILING":                          true,
	"CHAR":                             true,
	"CHARACTER":                        true,
	"CHARACTER_LENGTH":                 true,
	"CHAR_LENGTH":                      true,
	"CHECK":                            true,
	"CHR":                              true,
	"CLOB":                             true,
	"CLOSE":                            true,
	"COALESCE":                         true,
	"COLLATE":                          true,
	"COLLECT":                          true,
	"COLUMN":                           true,
	"COMMIT":                           true,
	"CONDITION":                        true,
	"CONNECT":                          true,
	"CONSTRAINT":                       true,
	"CONTAINS":                         true,
	"CONVERT":                          true,
	"COPY":                             true,
	"CORR":                             true,
	"CORRESPONDING":                    true,
	"COUNT":                            true,
	"COVAR_POP":                        true,
	"COVAR_SAMP":                       true,
	"CREATE":                           true,
	"CROSS":                            true,
	"CSV":                              true,
	"CUBE":                             true,
	"CUME_DIST":                        true,
	"CURRENT":                          true,
	"CURRENT_CATALOG":                  true,
	"CURRENT_DATE":                     true,
	"CURRENT_DEFAULT_TRANSFORM_GROUP":  true,
	"CURRENT_PATH":                     true,
	"CURRENT_ROLE":                     true,
	"CURRENT_ROW":                      true,
	"CURRENT_SCHEMA":                   true,
	"CURRENT_TIME":                     true,
	"CURRENT_TIMESTAMP":                true,
	"CURRENT_TRANSFORM_GROUP_FOR_TYPE": true,
	"CURRENT_USER":                     true,
	"CURSOR":                           true,
	"CYCLE":                            true,
	"DATE":                             true,
	"DAY":                              true,
	"DEALLOCATE":                       true,
	"DEC":                              true,
	"DECIMAL":                          true,
	"DECLARE":                          true,
	"DEFAULT":                          true,
	"DELETE":                           true,
	"DENSE_RANK":                       true,
	"DEREF":                            true,
	"DESC":                             true,
	"DESCRIBE":                         true,
	"DETERMINISTIC":                    true,
	"DISCONNECT":                       true,
	"DISTINCT":                         true,
	"DOUBLE":                           true,
	"DROP":                             true,
	"DYNAMIC":                          true,
	"EACH":                             true,
	"ELEMENT":                          true,
	"ELSE":                             true,
	"END":                              true,
	"END_FRAME":                        true,
	"END_PARTITION":                    true,
	"EQUALS":                           true,
	"ESCAPE":                           true,
	"EVERY":                            true,
	"EXCEPT":                           true,
	"EXEC":                             true,
	"EXECUTE":                          true,
	"EXISTS":                           true,
	"EXP":                              true,
	"EXTERNAL":                         true,
	"EXTRACT":                          true,
	"FALSE":                            true,
	"FETCH":                            true,
	"FILTER":                           true,
	"FIRST_VALUE":                      true,
	"FLOAT":                            true,
	"FLOOR":                            true,
	"FOLLOWING":                        true,
	"FOR":                              true,
	"FOREIGN":                          true,
	"FRAME_ROW":                        true,
	"FREE":                             true,
	"FROM":                             true,
	"FULL":                             true,
	"FUNCTION":                         true,
	"FUSION":                           true,
	"GET":                              true,
	"GLOBAL":                           true,
	"GRANT":                            true,
	"GROUP":                            true,
	"GROUPING":                         true,
	"GROUPS":                           true,
	"HAVING":                           true,
	"HEADER":                           true,
	"HOLD":                             true,
	"HOUR":                             true,
	"IDENTITY":                         true,
	"IN":                               true,
	"INDICATOR":                        true,
	"INNER":                            true,
	"INOUT":                            true,
	"INSENSITIVE":                      true,
	"INSERT":                           true,
	"INT":                              true,
	"INTEGER":                          true,
	"INTERSECT":                        true,
	"INTERSECTION":                     true,
	"INTERVAL":                         true,
	"INTO":                             true,
	"IS":                               true,
	"JOIN":                             true,
	"KEY":                              true,
	"LAG":                              true,
	"LANGUAGE":                         true,
	"LARGE":                            true,
	"LAST_VALUE":                       true,
	"LATERAL":                          true,
	"LEAD":                             true,
	"LEADING":                          true,
	"LEFT":                             true,
	"LIKE":                             true,
	"LIKE_REGEX":                       true,
	"LIMIT":                            true,
	"LN":                               true,
	"LOCAL":                            true,
	"LOCALTIME":                        true,
	"LOCALTIMESTAMP":                   true,
	"LOCATION":                         true,
	"LOWER":                            true,
	"MATCH":                            true,
	"MATERIALIZED":                     true,
	"MAX":                              true,
	"MEMBER":                           true,
	"MERGE":                            true,
	"METHOD":                           true,
	"MIN":                              true,
	"MINUTE":                           true,
	"MOD":                              true,
	"MODIFIES":                         true,
	"MODULE":                           true,
	"MONTH":                            true,
	"MULTISET":                         true,
	"NATIONAL":                         true,
	"NATURAL":                          true,
	"NCHAR":                            true,
	"NCLOB":                            true,
	"NEW":                              true,
	"NO":                               true,
	"NONE":                             true,
	"NORMALIZE":                        true,
	"NOT":                              true,
	"NTH_VALUE":                        true,
	"NTILE":                            true,
	"NULL":                             true,
	"NULLIF":                           true,
	"NUMERIC":                          true,
	"OBJECT":                           true,
	"OCCURRENCES_REGEX":                true,
	"OCTET_LENGTH":                     true,
	"OF":                               true,
	"OFFSET":                           true,
	"OLD":                              true,
	"ON":                               true,
	"ONLY":                             true,
	"OPEN":                             true,
	"OR":                               true,
	"ORDER":                            true,
	"OUT":                              true,
	"OUTER":                            true,
	"OVER":                             true,
	"OVERLAPS":                         true,
	"OVERLAY":                          true,
	"PARAMETER":                        true,
	"PARQUET":                          true,
	"PARTITION":                        true,
	"PERCENT":                          true,
	"PERCENTILE_CONT":                  true,
	"PERCENTILE_DISC":                  true,
	"PERCENT_RANK":                     true,
	"PERIOD":                           true,
	"PORTION":                          true,
	"POSITION":                         true,
	"POSITION_REGEX":                   true,
	"POWER":                            true,
	"PRECEDES":                         true,
	"PRECEDING":                        true,
	"PRECISION":                        true,
	"PREPARE":                          true,
	"PRIMARY":                          true,
	"PROCEDURE":                        true,
	"RANGE":                            true,
	"RANK":                             true,
	"READS":                            true,
	"REAL":                             true,
	"RECURSIVE":                        true,
	"REF":                              true,
	"REFERENCES":                       true,
	"REFERENCING":                      true,
	"REGCLASS":                         true,
	"REGR_AVGX":                        true,
	"REGR_AVGY":                        true,
	"REGR_COUNT":                       true,
	"REGR_INTERCEPT":                   true,
	"REGR_R2":                          true,
	"REGR_SLOPE":                       true,
	"REGR_SXX":                         true,
	"REGR_SXY":                         true,
	"REGR_SYY":                         true,
	"RELEASE":                          true,
	"RESULT":                           true,
	"RETURN":                           true,
	"RETURNS":                          true,
	"REVOKE":                           true,
	"RIGHT":                            true,
	"ROLLBACK":                         true,
	"ROLLUP":                           true,
	"ROW":                              true,
	"ROWS":                             true,
	"ROW_NUMBER":                       true,
	"SAVEPOINT":                        true,
	"SCOPE":                            true,
	"SCROLL":                           true,
	"SEARCH":                           true,
	"SECOND":                           true,
	"SELECT":                           true,
	"SENSITIVE":                        true,
	"SESSION_USER":                     true,
	"SET":                              true,
	"SIMILAR":                          true,
	"SMALLINT":                         true,
	"SOME":                             true,
	"SPECIFIC":                         true,
	"SPECIFICTYPE":                     true,
	"SQL":                              true,
	"SQLEXCEPTION":                     true,
	"SQLSTATE":                         true,
	"SQLWARNING":                       true,
	"SQRT":                             true,
	"START":                            true,
	"STATIC":                           true,
	"STDDEV_POP":                       true,
	"STDDEV_SAMP":                      true,
	"STDIN":                            true,
	"STORED":                           true,
	"SUBMULTISET":                      true,
	"SUBSTRING":                        true,
	"SUBSTRING_REGEX":                  true,
	"SUCCEEDS":                         true,
	"SUM":                              true,
	"SYMMETRIC":                        true,
	"SYSTEM":                           true,
	"SYSTEM_TIME":                      true,
	"SYSTEM_USER":                      true,
	"TABLE":                            true,
	"TABLESAMPLE":                      true,
	"TEXT":                             true,
	"THEN":                             true,
	"TIME":                             true,
	"TIMESTAMP":                        true,
	"TIMEZONE_HOUR":                    true,
	"TIMEZONE_MINUTE":                  true,
	"TO":                               true,
	"TRAILING":                         true,
	"TRANSLATE":                        true,
	"TRANSLATE_REGEX":                  true,
	"TRANSLATION":                      true,
	"TREAT":                            true,
	"TRIGGER":                          true,
	"TRIM":                             true,
	"TRIM_ARRAY":                       true,
	"TRUE":                             true,
	"TRUNCATE":                         true,
	"UESCAPE":                          true,
	"UNBOUNDED":                        true,
	"UNION":                            true,
	"UNIQUE":                           true,
	"UNKNOWN":                          true,
	"UNNEST":                           true,
	"UPDATE":                           true,
	"UPPER":                            true,
	"USER":                             true,
	"USING":                            true,
	"UUID":                             true,
	"VALUE":                            true,
	"VALUES":                           true,
	"VALUE_OF":                         true,
	"VARBINARY":                        true,
	"VARCHAR":                          true,
	"VARYING":                          true,
	"VAR_POP":                          true,
	"VAR_SAMP":                         true,
	"VERSIONING":                       true,
	"VIEW":                             true,
	"WHEN":                             true,
	"WHENEVER":                         true,
	"WHERE":                            true,
	"WIDTH_BUCKET":                     true,
	"WINDOW":                           true,
	"WITH":                             true,
	"WITHIN":                           true,
	"WITHOUT":                          true,
	"YEAR":                             true,
	"ZONE":                             true,
}

var sortedKeywords = func() []string {
	var l []string
	for k := range frozenKeywords {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}()
