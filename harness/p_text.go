package main

// P10, P12, P13 and P16: relations between a text, its rewritings and what is
// returned for them.

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	a "github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// ---- P10

// ntok is a token up to the normal spellings of P10.
func normTokens(src string, d *dial) ([]string, error) {
	toks, err := lexRef(src, d)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, t := range toks {
		if t.isSpace() || t.kind == sqltoken.Semicolon {
			continue
		}
		switch {
		case t.kind == sqltoken.SQLKeyword && t.quote == 0:
			up := asciiUpper(t.val)
			if frozenKeywords[up] || extraSpecial[up] {
				out = append(out, up)
			} else {
				out = append(out, "="+t.val)
			}
		case t.kind == sqltoken.SQLKeyword:
			out = append(out, string(t.quote)+t.val+string(t.quote))
		case t.kind == sqltoken.Number:
			out = append(out, normNumber(t.val))
		case t.kind == sqltoken.SingleQuotedString:
			out = append(out, "'"+t.val)
		case t.kind == sqltoken.NationalStringLiteral:
			out = append(out, "N'"+t.val)
		case t.kind == sqltoken.Neq:
			out = append(out, "!=")
		default:
			out = append(out, t.val)
		}
	}
	return out, nil
}

// normNumber gives the exact value of an integer and the nearest double of a
// decimal.
func normNumber(s string) string {
	if strings.Contains(s, ".") {
		f, _, err := big.ParseFloat(s, 10, 4000, big.ToNearestEven)
		if err != nil {
			return "?" + s
		}
		v, _ := f.Float64()
		return fmt.Sprintf("#%x", v)
	}
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return "?" + s
	}
	return "#" + n.String()
}

// canon removes what the normal spellings allow to differ.
func canon(in []string) []string {
	var out []string
	last := func() string {
		if len(out) == 0 {
			return ""
		}
		return out[len(out)-1]
	}
	for i := 0; i < len(in); i++ {
		t := in[i]
		switch {
		case t == "KEY" && last() == "UNIQUE":
		case t == "WITHOUT" && (last() == "TIME" || last() == "TIMESTAMP") && i+2 < len(in) && in[i+1] == "TIME" && in[i+2] == "ZONE":
			i += 2
			continue
		case t == "INTEGER":
			out = append(out, "INT")
		case t == "CHARACTER":
			out = append(out, "CHAR")
		case t == "VARYING" && last() == "CHAR":
			out[len(out)-1] = "VARCHAR"
		default:
			out = append(out, t)
		}
	}
	return out
}

func dropAll(in []string, words ...string) (out []string, n int) {
next:
	for _, t := range in {
		for _, w := range words {
			if t == w {
				n++
				continue next
			}
		}
		out = append(out, t)
	}
	return
}

func has(in []string, w string) bool {
	for _, t := range in {
		if t == w {
			return true
		}
	}
	return false
}

// sameTokens compares the tokens of an accepted text with those of what was
// printed for it and describes the difference.
func sameTokens(in, out []string) string {
	in, out = canon(in), canon(out)
	if createsTable(in) && (has(in, "ENGINE") || has(in, "CHARSET")) {
		in, out = dropOptionCommas(in), dropOptionCommas(out)
	}
	if (has(in, "DEFAULT") || has(in, "AUTO_INCREMENT")) && (has(in, "CREATE") || has(in, "ALTER")) {
		// DEFAULT and AUTO_INCREMENT may move within their column
		ins, outs := tableElements(in), tableElements(out)
		for i := 0; i < len(ins) && i < len(outs); i++ {
			if df := sameList(ins[i], outs[i], true); df != "" {
				return df
			}
		}
		if len(ins) != len(outs) {
			return fmt.Sprintf("%d table elements printed for %d", len(outs), len(ins))
		}
		return ""
	}
	return sameList(in, out, false)
}

func sameList(in, out []string, anyOrder bool) string {
	if has(in, "::") {
		_, casts := dropAll(in, "::")
		inParens, outParens := 0, 0
		var kw, ow int
		in, _ = dropAll(in, "::")
		in, kw = dropAll(in, "CAST")
		out, ow = dropAll(out, "CAST")
		if ow != kw+casts {
			return fmt.Sprintf("%d casts printed for %d", ow, kw+casts)
		}
		in, inParens = dropAll(in, "(", ")")
		out, outParens = dropAll(out, "(", ")")
		if outParens != inParens+2*casts {
			return fmt.Sprintf("%d parentheses printed for %d and %d casts", outParens, inParens, casts)
		}
	}
	if anyOrder {
		in, out = append([]string{}, in...), append([]string{}, out...)
		sort.Strings(in)
		sort.Strings(out)
	}
	i := 0
	for j := 0; i < len(in) || j < len(out); {
		switch {
		case i < len(in) && j < len(out) && in[i] == out[j]:
			i++
			j++
		case j < len(out) && out[j] == "AS": // an alias without AS is printed with it
			j++
		case i >= len(in):
			return fmt.Sprintf("printed additionally: %q", out[j])
		case j >= len(out):
			return fmt.Sprintf("lost at the end: %q", in[i])
		default:
			return fmt.Sprintf("%q printed for %q (token %d)", out[j], in[i], i)
		}
	}
	return ""
}

func createsTable(in []string) bool {
	for len(in) > 0 && in[0] == "EXPLAIN" {
		in = in[1:]
	}
	return len(in) > 1 && in[0] == "CREATE" && in[1] == "TABLE"
}

// tableElements splits CREATE TABLE at the commas between its elements.
func tableElements(in []string) (out [][]string) {
	if !createsTable(in) {
		return [][]string{in}
	}
	depth, from := 0, 0
	for i, t := range in {
		switch t {
		case "(":
			depth++
		case ")":
			depth--
		case ",":
			if depth == 1 {
				out = append(out, in[from:i])
				from = i + 1
			}
		}
	}
	return append(out, in[from:])
}

// dropOptionCommas removes the commas outside of all parentheses.
func dropOptionCommas(in []string) []string {
	var out []string
	depth := 0
	for _, t := range in {
		switch t {
		case "(":
			depth++
		case ")":
			depth--
		case ",":
			if depth == 0 {
				continue
			}
		}
		out = append(out, t)
	}
	return out
}

// splitParts splits a text at its semicolons.
func splitParts(src string, d *dial) []string {
	toks, err := lexRef(src, d)
	if err != nil {
		return nil
	}
	rs := []rune(src)
	var out []string
	from, empty := 0, true
	for _, t := range toks {
		if t.kind == sqltoken.Semicolon {
			if !empty {
				out = append(out, string(rs[from:t.start]))
			}
			from, empty = t.end, true
		} else if !t.isSpace() {
			empty = false
		}
	}
	if !empty {
		out = append(out, string(rs[from:]))
	}
	return out
}

func (c *Ctx) accounted(src string, d *dial) bool {
	l, err := parseSQL(src, d)
	if err != nil {
		c.add("rejected", 1)
		return false
	}
	c.add("accepted", 1)
	parts := splitParts(src, d)
	if len(parts) != len(l) {
		c.violate("statements", fmt.Sprintf("%d statements returned for %d parts (dialect %s)", len(l), len(parts), d.name), src)
		return true
	}
	for i, s := range l {
		in, err := normTokens(parts[i], d)
		if err != nil {
			c.violate("lexical", "accepted although it has a lexical error: "+err.Error(), src)
			return true
		}
		text := s.ToSQLString()
		out, err := normTokens(text, d)
		if err != nil {
			c.violate("printed-lexical", "the printed text has a lexical error: "+text, src)
			return true
		}
		c.add("tokens_accounted", len(in))
		if df := sameTokens(in, out); df != "" {
			c.violate("altered:"+typeName(s), fmt.Sprintf("%s (dialect %s)\nprinted: %s", df, d.name, text), parts[i])
		}
	}
	return true
}

// grammarSoup strings fragments of the grammar together.
var fragments = []string{"SELECT", "SELECT a", "SELECT *", "SELECT 1", "SELECT DISTINCT a", "a", "b", "c . d", ", a", ", b . *", "AS x", "x", "FROM t", "FROM t AS u", "FROM t , u", "JOIN v ON a = b", "LEFT JOIN v USING (a)", "NATURAL JOIN w", "CROSS JOIN w", "WHERE a = 1", "WHERE", "GROUP BY a", "GROUP BY a , b", "HAVING a > 1", "ORDER BY a", "ORDER BY a DESC , b", "LIMIT 1", "LIMIT ALL", "OFFSET 2", "LIMIT 1 OFFSET 2", "UNION", "UNION ALL", "EXCEPT", "INTERSECT", "(", ")", "( SELECT a )", "( SELECT a FROM t ) AS q", "WITH q AS ( SELECT a )", "LATERAL ( SELECT 1 )",
	"f ( a )", "f ( )", "OVER ( )", "OVER ( PARTITION BY a ORDER BY b )", "OVER ( ROWS 1 PRECEDING )", "CASE WHEN a THEN b END", "CASE a WHEN 1 THEN 2 ELSE 3 END", "CAST ( a AS INT )", ":: INT", ":: VARCHAR ( 3 )", "EXISTS ( SELECT a )", "NOT", "NOT EXISTS ( SELECT a )", "IN ( 1 , 2 )", "NOT IN ( SELECT a )", "BETWEEN 1 AND 2", "LIKE 'x'", "NOT LIKE 'x'", "IS NULL", "IS NOT NULL", "AND", "OR", "AND b", "OR b", "+ 1", "- 1", "* 2", "=", "= 1", "!= 1", "<> 1", "<=", "TRUE", "NULL", "'s'", "N'n'", "1", "1.5", "-", "+", "*", ",", ".", ";", "\"q\"", "\"select\"", "DISTINCT", "ALL",
	"INSERT INTO t", "( a , b )", "VALUES ( 1 , 2 )", ", ( 3 , 4 )", "ON DUPLICATE KEY UPDATE a = 1", "UPDATE t SET a = 1", ", b = 2", "DELETE FROM t", "EXPLAIN", "CREATE TABLE t ( a INT )", "CREATE TABLE t (", "a INT", ", b VARCHAR ( 10 )", "NOT NULL", "DEFAULT 1", "DEFAULT now ( )", "AUTO_INCREMENT", "UNIQUE", "UNIQUE KEY ( a )", "PRIMARY KEY", "PRIMARY KEY ( a )", ", CONSTRAINT k CHECK ( a > 1 )", "CHECK ( a > 1 )", "CONSTRAINT k", "REFERENCES t ( a )", "REFERENCES t", "FOREIGN KEY ( a ) REFERENCES t ( b )", "ENGINE = x", "ENGINE x", "DEFAULT CHARSET = y", "CHARSET y", "IF NOT EXISTS", "IF EXISTS", "CREATE VIEW v AS", "CREATE MATERIALIZED VIEW v AS", "CREATE INDEX i ON t ( a )", "CREATE UNIQUE INDEX ON t", "USING btree", "ALTER TABLE t", "ADD COLUMN a INT", "ADD CONSTRAINT k UNIQUE ( a )", "DROP COLUMN a", "DROP CONSTRAINT k", "CASCADE", "ALTER COLUMN a", "SET DEFAULT 1", "DROP DEFAULT", "TYPE INT", "SET NOT NULL", "DROP NOT NULL", "DROP TABLE t", "DROP INDEX i", "UNSIGNED", "TIMESTAMP WITH TIME ZONE", "TIMESTAMP WITHOUT TIME ZONE", "TIME", "NUMERIC ( 1 , 2 )", "TEXT [ ]", "DOUBLE PRECISION", "CHARACTER VARYING ( 2 )", "BIGINT", "WITH ( a )", "WITH ( a , b )"}

func grammarSoup(r *rand.Rand) string {
	var b strings.Builder
	starts := []string{"SELECT a", "SELECT * FROM t", "INSERT INTO t", "UPDATE t SET a = 1", "DELETE FROM t", "CREATE TABLE t ( a INT", "CREATE TABLE t ( a INT )", "CREATE VIEW v AS SELECT a", "CREATE INDEX i ON t", "ALTER TABLE t", "ALTER TABLE t ALTER COLUMN a", "DROP TABLE", "WITH q AS ( SELECT a ) SELECT b", "EXPLAIN SELECT a", "SELECT a FROM t JOIN u", "SELECT f ( a )", "ALTER TABLE t ADD COLUMN a INT", "DROP INDEX i"}
	b.WriteString(starts[r.Intn(len(starts))])
	for n := 1 + r.Intn(4); n > 0; n-- {
		b.WriteByte(' ')
		b.WriteString(fragments[r.Intn(len(fragments))])
	}
	if r.Intn(3) == 0 {
		b.WriteString(" )")
	}
	return b.String()
}

// sweepBases are short statements of every kind, with every clause.
var sweepBases = []string{
	"SELECT a",
	"SELECT DISTINCT a AS x , b . * , 'l' y FROM t AS u , v",
	"SELECT a FROM t JOIN u ON a = b WHERE c",
	"SELECT a FROM t LEFT JOIN u USING ( a , b ) ORDER BY a",
	"SELECT a FROM t NATURAL JOIN u CROSS JOIN v",
	"SELECT a FROM t RIGHT OUTER JOIN u ON a = b FULL JOIN v ON c = d",
	"SELECT a FROM ( SELECT b ) AS q , LATERAL ( SELECT c ) AS w",
	"SELECT a FROM f ( a , 1 ) AS g WITH ( h , i )",
	"SELECT a FROM t WHERE a = 1 AND b GROUP BY a , c HAVING d",
	"SELECT a FROM t ORDER BY a ASC , b DESC LIMIT 1 OFFSET 2",
	"SELECT a FROM t LIMIT ALL",
	"SELECT a FROM t LIMIT 10",
	"SELECT a UNION ALL SELECT b INTERSECT SELECT c EXCEPT SELECT d",
	"( SELECT a ) UNION SELECT b ORDER BY c",
	"WITH q AS ( SELECT a ) , w AS ( SELECT b ) SELECT c",
	"SELECT f ( a , b ) , g ( ) , count ( * )",
	"SELECT f ( a ) OVER ( PARTITION BY a , b ORDER BY c DESC )",
	"SELECT f ( a ) OVER ( ROWS BETWEEN 1 PRECEDING AND UNBOUNDED FOLLOWING )",
	"SELECT f ( a ) OVER ( ORDER BY a RANGE CURRENT ROW )",
	"SELECT CASE WHEN a THEN b WHEN c THEN d ELSE e END",
	"SELECT CASE a WHEN 1 THEN 2 END",
	"SELECT CAST ( a AS INT ) , b :: VARCHAR ( 3 )",
	"SELECT EXISTS ( SELECT a ) , NOT EXISTS ( SELECT b )",
	"SELECT a IN ( 1 , 2 ) AND b NOT IN ( SELECT c )",
	"SELECT a BETWEEN 1 AND 2 OR b NOT BETWEEN c AND d",
	"SELECT a LIKE 'x' , b NOT LIKE 'y' , c IS NULL , d IS NOT NULL",
	"SELECT - a + 1 * ( b - 2 ) / c % d <= 1 , NOT a <> b",
	"SELECT TRUE , NULL , N'n' , 1.5 , \"q\" . `c`",
	"INSERT INTO t VALUES ( 1 , 'x' ) , ( a , NULL )",
	"INSERT INTO t ( a , b ) SELECT c FROM d",
	"INSERT INTO t ( a ) VALUES ( 1 ) ON DUPLICATE KEY UPDATE a = 2 , b = c",
	"UPDATE t SET a = 1 , b = c + 2 WHERE d = 3",
	"UPDATE s . t SET a = 1",
	"DELETE FROM t WHERE a = 1",
	"DELETE FROM t",
	"EXPLAIN SELECT a FROM t",
	"EXPLAIN DELETE FROM t",
	"CREATE TABLE IF NOT EXISTS t ( a INT NOT NULL , b VARCHAR ( 10 ) UNIQUE )",
	"CREATE TABLE t ( a INT UNSIGNED PRIMARY KEY AUTO_INCREMENT DEFAULT 1 , b TEXT )",
	"CREATE TABLE t ( a INT CONSTRAINT k CHECK ( a > 1 ) REFERENCES u ( b ) )",
	"CREATE TABLE t ( a INT , CONSTRAINT k PRIMARY KEY ( a , b ) , UNIQUE ( c ) )",
	"CREATE TABLE t ( a INT , FOREIGN KEY ( a ) REFERENCES u ( b ) , CHECK ( a ) )",
	"CREATE TABLE t ( a INT ) ENGINE = x DEFAULT CHARSET = y",
	"CREATE TABLE t ( a INT ) CHARSET y , ENGINE x",
	"CREATE TABLE t ( a TIMESTAMP WITH TIME ZONE , b TIME WITHOUT TIME ZONE , c DATE )",
	"CREATE TABLE t ( a DOUBLE PRECISION , b REAL , c FLOAT ( 3 ) , d FLOAT )",
	"CREATE TABLE t ( a DECIMAL ( 1 , 2 ) , b NUMERIC ( 1 ) , c SMALLINT , d BIGINT )",
	"CREATE TABLE t ( a CHARACTER VARYING ( 1 ) , b CHAR ( 2 ) , c CHARACTER , d UUID )",
	"CREATE TABLE t ( a CLOB ( 1 ) , b BLOB ( 2 ) , c BINARY ( 3 ) , d VARBINARY ( 4 ) )",
	"CREATE TABLE t ( a BOOLEAN , b REGCLASS , c BYTEA , d TEXT [ ] , e my . type )",
	"CREATE VIEW v AS SELECT a",
	"CREATE MATERIALIZED VIEW v AS SELECT a FROM b",
	"CREATE INDEX i ON t ( a , b )",
	"CREATE UNIQUE INDEX i ON t USING btree ( a )",
	"CREATE INDEX ON t ( a ) WHERE b = 1",
	"ALTER TABLE t ADD COLUMN a INT NOT NULL",
	"ALTER TABLE t ADD CONSTRAINT k UNIQUE ( a )",
	"ALTER TABLE t DROP COLUMN a CASCADE",
	"ALTER TABLE t DROP CONSTRAINT k",
	"ALTER TABLE t ALTER COLUMN a SET DEFAULT 1",
	"ALTER TABLE t ALTER COLUMN a DROP DEFAULT",
	"ALTER TABLE t ALTER COLUMN a TYPE BIGINT",
	"ALTER TABLE t ALTER COLUMN a SET NOT NULL",
	"DROP TABLE IF EXISTS t CASCADE",
	"DROP TABLE t",
	"DROP INDEX i",
	"SELECT a ; SELECT b",
}

// sweepWords are all keywords and symbols, and words of other SQL grammars.
func sweepWords() []string {
	m := map[string]bool{}
	for w := range frozenKeywords {
		m[w] = true
	}
	for w := range extraSpecial {
		m[w] = true
	}
	for _, w := range strings.Fields("UNSIGNED SIGNED ZEROFILL RESTRICT CASCADE ONLY ANALYZE VERBOSE FORMAT NULLS FIRST LAST NEXT IGNORE REPLACE LOW_PRIORITY QUICK DELAYED TEMPORARY TEMP UNLOGGED RECURSIVE CONCURRENTLY RETURNING CONFLICT NOTHING DO STRAIGHT_JOIN ANTI SEMI APPLY PIVOT QUALIFY LOCK SHARE MODE NOWAIT SKIP LOCKED DUPLICATE KEY ENGINE CHARSET COMMENT COLLATE AFTER BEFORE MODIFY CHANGE RENAME TO STORED VIRTUAL GENERATED ALWAYS IDENTITY DEFERRABLE INITIALLY DEFERRED IMMEDIATE MATCH SIMPLE PARTIAL NO ACTION SEPARATOR XOR DIV MOD REGEXP RLIKE ILIKE SIMILAR ESCAPE GLOB ISNULL NOTNULL UNKNOWN ARRAY INTERVAL TIMESTAMPTZ JSON JSONB SERIAL TINYINT MEDIUMINT INT4 STRING NVARCHAR BIT PARTITIONS EXTENDED TABLES VIEW INDEX SEQUENCE DATABASE SCHEMA BTREE HASH INCLUDE TABLESPACE STORAGE FILL GO DELIMITER TOP PERCENT TIES SAMPLE EXCLUDE OTHERS GROUPS FILTER WITHIN RESPECT NATIONAL") {
		m[w] = true
	}
	for _, w := range []string{"x", "\"q\"", "1", "1.5", "'s'", "N'n'", "(", ")", ",", ".", "*", "+", "-", "/", "%", "=", "<", "<=", ">", ">=", "<>", "!=", "::", ":", ";", "[", "]", "{", "}", "&", "^", "\\", "||", "=>", "==", "@", "#", "$", "~", "( )", "( 1 )", "[ ]", ", ,", "AND", "IF EXISTS", "IF NOT EXISTS", "ROWS ONLY", "KEY UPDATE", "NOT NULL", "NULLS LAST", "WITH TIES", "FOR UPDATE", "AS x", "= x", ". x"} {
		m[w] = true
	}
	for _, w := range fragments {
		m[w] = true
	}
	var l []string
	for w := range m {
		l = append(l, w)
	}
	sort.Strings(l)
	return l
}

// lateSeps are what puts a text far behind: in tokens, in lines or in columns.
var lateSeps = []string{";", ";", ";\n", "; \t"}

func p10(c *Ctx) {
	c.rule = "generated statements, their item-level mutations (delete, duplicate, swap, replace, insert), strings of grammar fragments and scripts; whenever the whole text is accepted its tokens (reference lexer) must equal those of the printed statements up to the normal spellings; distinct by accepted text, non-trivial if it was accepted"
	c.cases("generated", c.count(6000), func(i int, r *rand.Rand) {
		sp := genSpec(r, i, anyStmt, anyStyle, nil)
		ok := c.accounted(sp.l.text, sp.d)
		c.eval(ok, sp.l.text)
		if i%1501 == 1 {
			c.sample(sp.l.text)
		}
	})
	c.cases("mutants", c.count(60000), func(i int, r *rand.Rand) {
		sp := genSpec(r, i, func(g *exprGen) a.Stmt { g.budget = 2 + g.n(15); return anyStmt(g) }, tightOrPlain, nil)
		t := mutate(sp, r)
		ok := c.accounted(t, sp.d)
		c.eval(ok, t)
	})
	// a query deep inside of another one against the query alone
	c.cases("nested", c.count(12000), func(i int, r *rand.Rand) {
		var t string
		if r.Intn(3) == 0 {
			t = "SELECT a " + fragments[r.Intn(len(fragments))] + " " + fragments[r.Intn(len(fragments))]
		} else {
			t = mutate(genSpec(r, i, func(g *exprGen) a.Stmt { g.budget = 2 + g.n(15); return g.subQuery(2) }, tightOrPlain, nil), r)
		}
		parsed, ok := c.nested(t, dials[i%3], []int{0, 1, 3, 20, 60, 150}[r.Intn(6)], r)
		if parsed {
			c.eval(ok, t)
			c.add("nested_queries", 1)
		}
	})
	c.cases("fragments", c.count(80000), func(i int, r *rand.Rand) {
		t := grammarSoup(r)
		ok := c.accounted(t, dials[i%3])
		c.eval(ok, t)
		if ok && i%4001 == 7 {
			c.sample(t)
		}
	})
	// every fragment after every start, and every pair of fragments (thorough)
	c.cases("pairs", len(fragments), func(i int, r *rand.Rand) {
		for k, f := range fragments {
			for _, s := range []string{"SELECT a FROM t ", "CREATE TABLE t ( a INT ", "INSERT INTO t ", "ALTER TABLE t ", "SELECT ", ""} {
				t := s + fragments[i] + " " + f
				ok := c.accounted(t, dials[(i+k)%3])
				c.eval(ok, t)
				if strings.HasPrefix(s, "CREATE TABLE") {
					ok = c.accounted(t+" )", dials[(i+k)%3])
					c.eval(ok, t+" )")
				}
			}
		}
	})
	// every keyword and symbol at, and in the place of, every token of short
	// statements of every kind
	words := sweepWords()
	c.cases("sweep", len(sweepBases)*4, func(i int, r *rand.Rand) {
		base := strings.Fields(sweepBases[i%len(sweepBases)])
		for at := 0; at <= len(base); at++ {
			// without one token, or two, here and far behind
			for skip := 1; skip < 3 && at+skip <= len(base); skip++ {
				t := strings.Join(base[:at], " ") + " " + strings.Join(base[at+skip:], " ")
				d := dials[(at+skip+i/len(sweepBases))%3]
				ok := c.accounted(t, d)
				c.eval(ok, t)
				for _, n := range []int{70 + r.Intn(900), 1500 + r.Intn(4000)} {
					late := strings.Repeat(lateSeps[r.Intn(len(lateSeps))], n) + t
					if c.accounted(late, d) != ok {
						c.violate("late", fmt.Sprintf("alone it is accepted: %v, behind semicolons: %v (dialect %s)", ok, !ok, d.name), late)
					}
					c.add("late_texts", 1)
				}
			}
			for k, w := range words {
				if (at+k+i/len(sweepBases))%4 != 0 {
					continue
				}
				d := dials[(at+k)%3]
				pre, post := strings.Join(base[:at], " "), strings.Join(base[at:], " ")
				ts := []string{pre + " " + w + " " + post}
				if at < len(base) {
					ts = append(ts, pre+" "+w+" "+strings.Join(base[at+1:], " "))
				}
				if n := len(words); c.Thorough {
					ts = append(ts, pre+" "+w+" "+words[r.Intn(n)]+" "+post, pre+" "+w+" x "+post, pre+" "+w+" 1 "+post, pre+" "+w+" ( a ) "+post)
				} else {
					ts = append(ts, pre+" "+w+" "+[]string{words[r.Intn(n)], "x", "1", "( a )"}[r.Intn(4)]+" "+post)
				}
				for _, t := range ts {
					ok := c.accounted(t, d)
					c.eval(ok, t)
					// the same further behind in the text
					lates := []int{1 + r.Intn(130), 65 + r.Intn(64), 256 + r.Intn(800)}
					if r.Intn(4) == 0 {
						lates[2] = 1500 + r.Intn(2000)
					}
					if letter([]rune(w)[0]) {
						lates = lates[:1]
						if r.Intn(3) > 0 {
							continue
						}
					}
					for _, n := range lates {
						late := strings.Repeat(lateSeps[r.Intn(len(lateSeps))], n) + t
						if c.accounted(late, d) != ok {
							c.violate("late", fmt.Sprintf("alone it is accepted: %v, behind semicolons: %v (dialect %s)", ok, !ok, d.name), late)
						}
						c.add("late_texts", 1)
					}
				}
			}
		}
	})
	c.cases("scripts", c.count(2500), func(i int, r *rand.Rand) {
		sc := genScript(r, i, anyStyle)
		ok := c.accounted(sc.l.text, sc.d)
		c.eval(ok, sc.l.text)
		t := editText(sc.l.text, r)
		ok = c.accounted(t, sc.d)
		c.eval(ok, t)
	})
}

// ---- P12

// mutateItems edits an item list like mutate, keeping the kinds.
func mutateItems(items []item, r *rand.Rand) []item {
	items = append([]item{}, items...)
	for k := 1 + r.Intn(2); k > 0; k-- {
		if len(items) == 0 {
			break
		}
		i := r.Intn(len(items))
		switch r.Intn(5) {
		case 0:
			items = append(items[:i], items[i+1:]...)
		case 1:
			items = append(items[:i], append([]item{items[i]}, items[i:]...)...)
		case 2:
			j := r.Intn(len(items))
			items[i], items[j] = items[j], items[i]
		default:
			f := strings.Fields(fragments[r.Intn(len(fragments))])
			var ins []item
			for _, w := range f {
				k := iOp
				if frozenKeywords[w] || extraSpecial[w] {
					k = iKeyword
				}
				ins = append(ins, item{w, k})
			}
			items = append(items[:i], append(ins, items[i:]...)...)
		}
	}
	return items
}

// foldNames makes the letter case of names that spell a keyword irrelevant: in
// a damaged text a keyword may have come to stand where a name is expected.
func foldNames(n a.Node) {
	for _, x := range allNodes(n) {
		if id, ok := x.(*a.Ident); ok {
			if up := asciiUpper(id.Value); frozenKeywords[up] || extraSpecial[up] {
				id.Value = up
			}
		}
	}
}

func p12(c *Ctx) {
	c.rule = "item lists of generated scripts (valid) and mutated ones (mostly invalid), each laid out in 4 ways that differ in blanks, tabs, line ends, comments and keyword case, parsed with comment parsing on or off -> same acceptance, same statements up to positions; distinct by text, non-trivial if more than 4 items"
	run := func(items []item, d *dial, r *rand.Rand, fold bool) {
		var first []a.Stmt
		var firstErr error
		var firstText string
		for k, st := range []gapStyle{plainStyle, wildStyle(r), commentStyle(r), tightStyle, commentStyle(r)} {
			l := layout(items, d, st, r)
			var got []a.Stmt
			var err error
			if (k+r.Intn(2))%2 == 0 {
				got, err = fileStmts(parseFile(l.text, d, true))
			} else {
				got, err = parseSQL(l.text, d)
			}
			if fold {
				for _, s := range got {
					foldNames(s)
				}
			}
			if k == 0 {
				first, firstErr, firstText = got, err, l.text
				continue
			}
			c.add("rewritings", 1)
			if (err == nil) != (firstErr == nil) {
				c.violate("acceptance", fmt.Sprintf("acceptance depends on the layout (dialect %s):\n%v\n%v\nother layout: %s", d.name, firstErr, err, firstText), l.text)
				return
			}
			if err != nil {
				c.add("both_rejected", 1)
				continue
			}
			if df := equalStmts(first, got); df != "" {
				c.violate("statements:"+diffKey(df), fmt.Sprintf("the statements depend on the layout (dialect %s): %s\nother layout: %s", d.name, df, firstText), l.text)
				return
			}
		}
		c.eval(len(items) > 4, firstText)
	}
	c.cases("valid", c.count(5000), func(i int, r *rand.Rand) {
		sc := genScript(r, i, anyStyle)
		run(sc.em.items, sc.d, r, false)
		if i%1501 == 1 {
			c.sample(sc.l.text)
		}
	})
	c.cases("mutants", c.count(12000), func(i int, r *rand.Rand) {
		sp := genSpec(r, i, func(g *exprGen) a.Stmt { g.budget = 2 + g.n(20); return anyStmt(g) }, tightOrPlain, nil)
		run(mutateItems(sp.em.items, r), sp.d, r, true)
	})
	c.cases("fragments", c.count(12000), func(i int, r *rand.Rand) {
		var items []item
		for _, w := range strings.Fields(grammarSoup(r)) {
			k := iOp
			if frozenKeywords[w] || extraSpecial[w] {
				k = iKeyword
			}
			items = append(items, item{w, k})
		}
		run(items, dials[i%3], r, true)
	})
}

// ---- P13

func p13(c *Ctx) {
	c.rule = "generated statements in which every name is a delimited keyword, operator, type name or other odd text (must parse to exactly these names), and statements in which one keyword is delimited (must be rejected or kept as a name); distinct by text, all non-trivial"
	c.cases("names", c.count(14000), func(i int, r *rand.Rand) {
		sp := genSpec(r, i, anyStmt, anyStyle, func(g *G, e *emitter) { g.quoteAll = true })
		c.checkStmtText(sp, r.Intn(6))
		c.eval(true, sp.l.text)
		n := 0
		for _, it := range sp.em.items {
			if it.kind == iName {
				n++
			}
		}
		c.add("delimited_names", n)
		if i%2001 == 1 {
			c.sample(sp.l.text)
		}
	})
	// every keyword and operator as the only name in every clause
	words := append([]string{}, sortedKeywords...)
	for w := range extraSpecial {
		words = append(words, w)
	}
	words = append(words, "*", ",", "=", "(", ")", "::", ".", ";", "--", "/*", "'", "1", "N'x'", "a b", "")
	sort.Strings(words)
	templates := []string{"SELECT %s", "SELECT a %s", "SELECT a AS %s", "SELECT %s.%s", "SELECT %s.*", "SELECT %s(1)", "SELECT a FROM %s", "SELECT a FROM t %s", "SELECT a FROM t AS %s", "SELECT a FROM (SELECT 1) %s", "SELECT a FROM %s.%s", "SELECT a FROM %s(1)", "SELECT a FROM t WITH (%s)", "SELECT a FROM t JOIN %s ON a = b", "SELECT a FROM t JOIN u USING (%s)", "SELECT a FROM t NATURAL JOIN %s", "SELECT a FROM t CROSS JOIN %s", "SELECT a WHERE %s = 1", "SELECT a GROUP BY %s", "SELECT a GROUP BY b HAVING %s", "SELECT a ORDER BY %s", "SELECT f(a) OVER (PARTITION BY %s ORDER BY %s)", "WITH %s AS (SELECT 1) SELECT 2", "SELECT a::%s", "SELECT CAST(a AS %s)", "SELECT CASE %s WHEN %s THEN %s ELSE %s END", "SELECT a + %s * %s", "SELECT a AND %s", "SELECT NOT %s", "SELECT - %s", "SELECT a BETWEEN %s AND %s", "SELECT a IN (%s)", "SELECT (%s)", "SELECT %s IS NULL", "SELECT %s LIKE %s", "SELECT %s NOT IN (1)",
		"INSERT INTO %s VALUES (1)", "INSERT INTO t (%s, %s) VALUES (%s)", "INSERT INTO t VALUES (1) ON DUPLICATE KEY UPDATE %s = %s", "UPDATE %s SET a = 1", "UPDATE t SET %s = %s WHERE %s", "DELETE FROM %s", "DELETE FROM t WHERE %s", "CREATE TABLE %s (a INT)", "CREATE TABLE t (%s INT)", "CREATE TABLE t (a %s)", "CREATE TABLE t (a INT, %s INT DEFAULT %s NOT NULL)", "CREATE TABLE t (a INT CONSTRAINT %s UNIQUE)", "CREATE TABLE t (a INT REFERENCES %s (%s))", "CREATE TABLE t (a INT CHECK (%s))", "CREATE TABLE t (CONSTRAINT %s UNIQUE (%s))", "CREATE TABLE t (a INT, PRIMARY KEY (%s))", "CREATE TABLE t (FOREIGN KEY (%s) REFERENCES %s (%s))", "CREATE TABLE t (CHECK (%s))", "CREATE TABLE t (a INT) ENGINE = %s", "CREATE TABLE t (a INT) DEFAULT CHARSET = %s", "CREATE VIEW %s AS SELECT 1", "CREATE INDEX %s ON t (a)", "CREATE INDEX ON %s", "CREATE INDEX ON t USING %s (%s) WHERE %s", "ALTER TABLE %s DROP COLUMN a", "ALTER TABLE t ADD COLUMN %s INT", "ALTER TABLE t ADD CONSTRAINT %s CHECK (%s)", "ALTER TABLE t DROP COLUMN %s", "ALTER TABLE t DROP CONSTRAINT %s", "ALTER TABLE t ALTER COLUMN %s SET DEFAULT %s", "ALTER TABLE t ALTER COLUMN a TYPE %s", "DROP TABLE %s", "DROP TABLE IF EXISTS %s CASCADE", "DROP INDEX %s", "EXPLAIN SELECT %s"}
	c.cases("templates", len(templates), func(i int, r *rand.Rand) {
		for wi, w := range words {
			d := dials[(i+wi)%3]
			q := string(d.quotes[r.Intn(len(d.quotes))])
			if r.Intn(2) == 0 {
				w = strings.ToLower(w)
			}
			name := q + w + q
			n := strings.Count(templates[i], "%s")
			fill := func(x string) string { return strings.ReplaceAll(templates[i], "%s", x) }
			text := fill(name)
			got, err := parseSQL(text, d)
			c.eval(true, text)
			c.add("template_cases", 1)
			if err != nil {
				c.violate("template:"+templates[i], fmt.Sprintf("a delimited name is rejected (dialect %s): %v", d.name, err), text)
				break
			}
			// the same statement with an ordinary name there
			ref, err := parseSQL(fill("zz"), d)
			if err != nil || len(ref) != len(got) {
				c.violate("template:"+templates[i], fmt.Sprintf("ordinary name: %v", err), fill("zz"))
				break
			}
			cnt := 0
			for _, s := range ref {
				for _, x := range allNodes(s) {
					if id, ok := x.(*a.Ident); ok && id.Value == "zz" {
						id.Value = name
						cnt++
					}
				}
			}
			if cnt != n {
				c.violate("template:"+templates[i], fmt.Sprintf("%d of %d names kept", cnt, n), fill("zz"))
				break
			}
			if df := equalStmts(got, ref); df != "" {
				c.violate("template:"+templates[i], fmt.Sprintf("a delimited name is not kept (dialect %s): %s", d.name, df), text)
				break
			}
		}
	})
	c.cases("keywords", c.count(30000), func(i int, r *rand.Rand) {
		sp := genSpec(r, i, func(g *exprGen) a.Stmt { g.noQuoted = true; g.budget = 2 + g.n(20); return anyStmt(g) }, tightOrPlain, nil)
		var kws []int
		for k, it := range sp.em.items {
			if it.kind == iKeyword {
				kws = append(kws, k)
			}
		}
		items := append([]item{}, sp.em.items...)
		k := kws[r.Intn(len(kws))]
		q := string(sp.d.quotes[r.Intn(len(sp.d.quotes))])
		items[k] = item{q + caseKeyword(items[k].text, r.Intn(3), r) + q, iName}
		name := items[k].text
		l := layout(items, sp.d, plainStyle, r)
		got, err := parseSQL(l.text, sp.d)
		c.eval(true, l.text)
		if err != nil {
			c.add("delimited_keyword_rejected", 1)
			return
		}
		c.add("delimited_keyword_kept_as_name", 1)
		n := 0
		for _, s := range got {
			for _, x := range allNodes(s) {
				if id, ok := x.(*a.Ident); ok && id.Value == name {
					n++
				}
			}
		}
		if n != 1 {
			c.violate("keyword:"+asciiUpper(strings.Trim(name, q)), fmt.Sprintf("the delimited identifier %s is accepted in the place of a keyword (dialect %s): %d names in %s", name, sp.d.name, n, got[0].ToSQLString()), l.text)
		}
	})
}

// ---- P16

var lateLines = []string{"SELECT 1;\n", "DELETE FROM t;\n", "DROP TABLE a CASCADE;\n", "EXPLAIN SELECT a;\n", "INSERT INTO t VALUES (1);\n", "CREATE TABLE t (a INT);\n", "UPDATE t SET a = 1;\n", "SELECT a.b, c AS d FROM e WHERE f > 1 AND g IN (1, 2);\n", "ALTER TABLE t DROP COLUMN c;\n"}

// somePart is a statement, a damaged one, or pieces of the grammar.
func somePart(r *rand.Rand, i int) string {
	if r.Intn(3) == 0 {
		return grammarSoup(r)
	}
	sp := genSpec(r, i, func(g *exprGen) a.Stmt { g.budget = 2 + g.n(10); return anyStmt(g) }, tightOrPlain, nil)
	if r.Intn(4) == 0 {
		return sp.l.text
	}
	return mutate(sp, r)
}

// nestLevels are what a query can stand in, any number of times.
var nestLevels = [][2]string{{"(", ")"}, {"(", ")"}, {"f(", ")"}, {"CASE WHEN ", " THEN 1 END"}, {"CASE a WHEN 1 THEN ", " ELSE 2 END"}, {"NOT (", ")"}, {"1 + (", ")"}, {"(SELECT ", ")"}, {"(SELECT a FROM t WHERE ", ")"}, {"a IN (1, ", ")"}, {"EXISTS (SELECT a FROM (SELECT ", ") AS q)"}, {"a BETWEEN 1 AND (", ")"}, {"CAST(", " AS INT)"}}

// nested parses a query inside of k nestLevels and alone, on the same line.
func (c *Ctx) nested(part string, d *dial, k int, r *rand.Rand) (parsed, ok bool) {
	toks, err := lexRef(part, d)
	if err != nil {
		return
	}
	open, first := 0, true
	for _, t := range toks {
		switch {
		case t.isSpace():
			continue
		case t.kind == sqltoken.Semicolon:
			return
		case t.kind == sqltoken.LParen:
			open++
		case t.kind == sqltoken.RParen:
			open--
		}
		if first && !(t.kind == sqltoken.SQLKeyword && t.quote == 0 && (strings.EqualFold(t.val, "SELECT") || strings.EqualFold(t.val, "WITH"))) || open < 0 {
			return
		}
		first = false
	}
	if first || open != 0 {
		return
	}
	pre, post := "SELECT ", ""
	for ; k > 0; k-- {
		l := nestLevels[r.Intn(len(nestLevels))]
		pre, post = pre+l[0], l[1]+post
	}
	text := pre + "(\n" + part + "\n)" + post
	got, err := parseSQL(text, d)
	want, alone := parseSQL("\n"+part, d)
	if (err == nil) != (alone == nil) {
		c.violate("nested-accepted", fmt.Sprintf("inside: %v, alone: %v (dialect %s)", err, alone, d.name), text)
		return
	}
	if err != nil {
		return true, false
	}
	for _, x := range allNodes(got[0]) {
		if _, q := x.(*a.QueryStmt); q && len(want) == 1 && diffTrees(x, want[0], true) == "" {
			return true, true
		}
	}
	c.violate("nested", fmt.Sprintf("the query is not found inside of the tree (dialect %s)", d.name), text)
	return true, true
}

func p16(c *Ctx) {
	c.rule = "scripts of valid, damaged and glued parts with random semicolons, layout and comments; the whole must be accepted iff every non-empty part (split by the reference lexer) alone gives exactly one statement, with equal statements in order; the first statement alone; distinct by text, non-trivial if two or more parts"
	check := func(src string, d *dial) {
		parts := splitParts(src, d)
		var want []a.Stmt
		valid := true
		for _, p := range parts {
			l, err := parseSQL(p, d)
			if err != nil || len(l) != 1 {
				if err == nil {
					c.violate("part-count", fmt.Sprintf("%d statements for a part without semicolons", len(l)), p)
				}
				valid = false
				continue
			}
			want = append(want, l[0])
		}
		c.eval(len(parts) > 1, d.name, src)
		c.add("parts", len(parts))
		for how := 0; how < 3; how++ {
			var got []a.Stmt
			var f *a.File
			var err error
			if how == 0 {
				got, err = parseSQL(src, d)
			} else {
				f, err = parseFile(src, d, how == 2)
				got, err = fileStmts(f, err)
			}
			if err == nil && !valid {
				c.violate("accepted", fmt.Sprintf("the whole is accepted although a part is invalid (%d statements, dialect %s)", len(got), d.name), src)
				return
			}
			if err != nil && valid {
				c.violate("rejected", fmt.Sprintf("the whole is rejected although every part is valid (dialect %s): %v", d.name, err), src)
				return
			}
			if err != nil {
				c.add("scripts_rejected", 1)
				if len(got) != 0 {
					c.violate("result-with-error", "statements are returned along with an error", src)
				}
				continue
			}
			c.add("scripts_accepted", 1)
			if len(got) != len(want) {
				c.violate("count", fmt.Sprintf("%d statements for %d parts (dialect %s)", len(got), len(want), d.name), src)
				return
			}
			for i := range got {
				if df := diffTrees(got[i], want[i], false); df != "" {
					c.violate("differs:"+diffKey(df), fmt.Sprintf("statement %d differs from its part parsed alone: %s", i, df), src)
					return
				}
			}
			if f != nil {
				var lines []string
				for _, s := range want {
					lines = append(lines, s.ToSQLString())
				}
				if x, y := f.ToSQLString(), strings.Join(lines, "\n"); x != y {
					c.violate("file-text", fmt.Sprintf("the file does not print as its statements on lines of their own:\n%s\ninstead of\n%s", x, y), src)
					return
				}
				c.add("files_printed", 1)
			}
		}
		// the statement the text begins with, whatever follows its semicolon
		toks, err := lexRef(src, d)
		if err != nil || len(parts) == 0 {
			return
		}
		for _, t := range toks {
			if t.isSpace() {
				continue
			}
			if t.kind == sqltoken.Semicolon {
				return
			}
			break
		}
		l, err := parseSQL(parts[0], d)
		if err != nil {
			return
		}
		s, err := parseStmt(src, d)
		if err != nil {
			c.violate("first-rejected", fmt.Sprintf("the first statement cannot be parsed from the script: %v", err), src)
		} else if df := diffTrees(s, l[0], false); df != "" {
			c.violate("first-differs", "the first statement of the script differs: "+df, src)
		}
		c.add("first_statements", 1)
	}
	c.cases("valid", c.count(6000), func(i int, r *rand.Rand) {
		sc := genScript(r, i, anyStyle)
		check(sc.l.text, sc.d)
		got, err := parseSQL(sc.l.text, sc.d)
		if err != nil {
			c.violate("rejected", fmt.Sprintf("a valid script is rejected: %v", err), sc.l.text)
		} else if df := equalStmts(got, sc.stmts); df != "" {
			c.violate("differs:"+diffKey(df), "the statements differ from the generated ones: "+df, sc.l.text)
		}
		if i%1501 == 1 {
			c.sample(sc.l.text)
		}
	})
	c.cases("long", c.count(40), func(i int, r *rand.Rand) {
		d := dials[i%3]
		n := size(r, 10001)
		var b strings.Builder
		short := []string{"SELECT 1", "DELETE FROM t", "DROP TABLE a CASCADE", "EXPLAIN SELECT a", "INSERT INTO t VALUES (1)", "CREATE TABLE t (a INT)", "UPDATE t SET a = 1"}
		for k := 0; k < n; k++ {
			b.WriteString(short[r.Intn(len(short))])
			if k == n-1 && r.Intn(2) == 0 {
				b.WriteString(" b c")
			}
			b.WriteString(";")
			if r.Intn(20) == 0 {
				b.WriteString("\n;")
			}
		}
		check(b.String(), d)
	})
	// a part far behind in a script against the part alone, on the same line
	c.cases("late", c.count(9000), func(i int, r *rand.Rand) {
		d := dials[i%3]
		part := somePart(r, i)
		toks, err := lexRef(part, d)
		if err != nil {
			return
		}
		empty := true
		for _, t := range toks {
			if t.kind == sqltoken.Semicolon {
				return
			}
			empty = empty && t.isSpace()
		}
		lines := []int{5, 20, 70, 150, 300, 700}[r.Intn(6)]
		var b strings.Builder
		for k := 0; k < lines; k++ {
			b.WriteString(lateLines[r.Intn(len(lateLines))])
		}
		b.WriteString(part)
		got, err := parseSQL(b.String(), d)
		want, alone := parseSQL(strings.Repeat("\n", lines)+part, d)
		c.eval(true, d.name, lines, part)
		switch {
		case empty:
		case (err == nil) != (alone == nil):
			c.violate("late-accepted", fmt.Sprintf("behind %d lines: %v, alone: %v (dialect %s)", lines, err, alone, d.name), b.String())
		case err != nil:
			c.add("late_parts_rejected", 1)
		case len(got) != lines+len(want):
			c.violate("late-count", fmt.Sprintf("%d statements instead of %d and %d (dialect %s)", len(got), lines, len(want), d.name), b.String())
		default:
			c.add("late_parts_accepted", 1)
			for k := range want {
				if df := diffTrees(got[lines+k], want[k], true); df != "" {
					c.violate("late:"+diffKey(df), fmt.Sprintf("the part behind %d lines differs from the part alone: %s (dialect %s)", lines, df, d.name), b.String())
				}
			}
		}
	})
	c.cases("damaged", c.count(14000), func(i int, r *rand.Rand) {
		d := dials[i%3]
		var b strings.Builder
		for n := 1 + r.Intn(4); n > 0; n-- {
			switch r.Intn(8) {
			case 0:
				b.WriteString(grammarSoup(r))
			case 1:
				b.WriteString("SELECT a")
			case 2:
				b.WriteString(fragments[r.Intn(len(fragments))])
			case 3:
				sp := genSpec(r, i, func(g *exprGen) a.Stmt { g.budget = 2 + g.n(10); return anyStmt(g) }, tightOrPlain, nil)
				b.WriteString(mutate(sp, r))
			default:
				sp := genSpec(r, i, func(g *exprGen) a.Stmt { g.budget = 2 + g.n(10); return anyStmt(g) }, tightOrPlain, nil)
				b.WriteString(sp.l.text)
			}
			b.WriteString([]string{";", ";", ";", " ; ", ";;", "; ;\n;", " ", "\n", ";--c\n", "/* ; */;", " ;/**/; "}[r.Intn(11)])
		}
		check(b.String(), d)
	})
	c.cases("separators", c.count(3000), func(i int, r *rand.Rand) {
		var b strings.Builder
		for n := r.Intn(10); n > 0; n-- {
			b.WriteString([]string{";", ";", "SELECT a", "DROP INDEX i", " ", "\n", "--c\n", "/*x*/", "INSERT INTO t VALUES (1)", "EXPLAIN", "CREATE TABLE t (a INT)"}[r.Intn(11)])
		}
		check(b.String(), dials[i%3])
	})
}
