package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/akito0107/xsqlparser"
	a "github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// ---- P11: any input ends in a result or an error

// exercise uses a tree in every way that reads it; panics are the caller's.
func exercise(n a.Node) string {
	_ = n.ToSQLString()
	if k, err := n.WriteTo(io.Discard); err != nil || k < 0 {
		return "WriteTo reports an error on a writer that takes everything"
	}
	// the position of a node may be that of its deepest descendant, so that
	// asking every node of a very deep tree takes quadratic time
	count, every := 0, 1
	a.Inspect(n, func(x a.Node) bool { count++; return true })
	if count > 20000 {
		every = count / 300
	}
	i := 0
	a.Inspect(n, func(x a.Node) bool {
		if i++; x != nil && i%every == 0 {
			x.Pos()
			x.End()
		}
		return true
	})
	sqlastutil.Apply(n, func(*sqlastutil.Cursor) bool { return true }, func(*sqlastutil.Cursor) bool { return true })
	if f, ok := n.(*a.File); ok {
		a.NewCommentMap(f)
	}
	return ""
}

// entry points of the parser. Each returns the trees it made and its error.
var entries = []struct {
	name string
	run  func(p *xsqlparser.Parser) ([]a.Node, error)
}{
	{"ParseSQL", func(p *xsqlparser.Parser) ([]a.Node, error) {
		l, err := p.ParseSQL()
		var out []a.Node
		for _, s := range l {
			out = append(out, s)
		}
		return out, err
	}},
	{"ParseFile", func(p *xsqlparser.Parser) ([]a.Node, error) {
		f, err := p.ParseFile()
		if f == nil {
			return nil, err
		}
		return []a.Node{f}, err
	}},
	{"ParseStatement", func(p *xsqlparser.Parser) ([]a.Node, error) {
		s, err := p.ParseStatement()
		if s == nil {
			return nil, err
		}
		return []a.Node{s}, err
	}},
	{"ParseExpr", func(p *xsqlparser.Parser) ([]a.Node, error) {
		s, err := p.ParseExpr()
		if s == nil {
			return nil, err
		}
		return []a.Node{s}, err
	}},
	{"ParseDataType", func(p *xsqlparser.Parser) ([]a.Node, error) {
		s, err := p.ParseDataType()
		if s == nil {
			return nil, err
		}
		return []a.Node{s}, err
	}},
}

// stdoutGuard notices whatever the code under test prints.
type stdoutGuard struct {
	real, file *os.File
	realErr    *os.File
}

func guardStdout(c *Ctx) *stdoutGuard {
	f, err := os.CreateTemp(os.Getenv("VERIF_WORK"), "stdout")
	if err != nil {
		c.fatal("%v", err)
	}
	g := &stdoutGuard{os.Stdout, f, os.Stderr}
	os.Stdout, os.Stderr = f, f
	log.SetOutput(f)
	return g
}

func (g *stdoutGuard) written() string {
	st, err := g.file.Stat()
	if err != nil || st.Size() == 0 {
		return ""
	}
	b := make([]byte, 200)
	n, _ := g.file.ReadAt(b, 0)
	g.file.Truncate(0)
	g.file.Seek(0, 0)
	return string(b[:n])
}

func (g *stdoutGuard) end() {
	os.Stdout, os.Stderr = g.real, g.realErr
	log.SetOutput(g.realErr)
	g.file.Close()
	os.Remove(g.file.Name())
}

// total runs every entry point on one input.
func (c *Ctx) total(src string, d *dial, g *stdoutGuard, make func(opts ...xsqlparser.ParserOption) (*xsqlparser.Parser, error), what string) {
	c.note(src)
	accepted := false
	for i, e := range entries {
		var opts []xsqlparser.ParserOption
		if i == 1 {
			opts = append(opts, xsqlparser.ParseComment())
		}
		stage := e.name
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.violate("panic:"+stage+":"+firstLine(fmt.Sprint(r)), fmt.Sprintf("%s of %s panics (dialect %s): %v\n%s", stage, what, d.name, r, debug.Stack()), src)
				}
			}()
			p, err := make(opts...)
			if err != nil {
				c.add("rejected_by_the_tokenizer", 1)
				if p != nil {
					c.violate("parser-and-error", "a parser and an error are returned", src)
				}
				return
			}
			trees, err := e.run(p)
			if err != nil {
				c.add("rejected", 1)
				if err.Error() == "" {
					c.violate("empty-error", stage+": an error without a message", src)
				}
				return
			}
			if trees == nil && e.name != "ParseSQL" {
				c.violate("nothing:"+stage, stage+" returns neither a tree nor an error", src)
			}
			for _, t := range trees {
				accepted = true
				c.add("trees", 1)
				stage = e.name + ", using the " + typeName(t)
				if s := exercise(t); s != "" {
					c.violate("use:"+stage, stage+": "+s, src)
				}
			}
		}()
	}
	if s := g.written(); s != "" {
		c.violate("stdout", fmt.Sprintf("written to standard output or error (%s): %q", what, s), src)
	}
	c.eval(len(src) > 1, d.name, src, accepted)
}

func (c *Ctx) totalText(src string, d *dial, g *stdoutGuard) {
	c.total(src, d, g, func(opts ...xsqlparser.ParserOption) (*xsqlparser.Parser, error) {
		return xsqlparser.NewParser(strings.NewReader(src), d.d, opts...)
	}, "the text")
}

func byteSoup(r *rand.Rand) string {
	var b strings.Builder
	invalid := r.Intn(4) == 0
	for n := 1 + r.Intn(40); n > 0; n-- {
		switch r.Intn(4) {
		case 0:
			switch {
			case invalid && r.Intn(4) == 0:
				b.WriteByte(byte(r.Intn(256)))
			case r.Intn(3) == 0:
				b.WriteRune(rune(r.Intn(0x11000)))
			default:
				b.WriteByte(byte(r.Intn(128)))
			}
		case 1:
			b.WriteByte("'\"`-/*\n\r\tN!.<>:=[]();,\x00"[r.Intn(23)])
		default:
			b.WriteByte(byte(32 + r.Intn(95)))
		}
	}
	return b.String()
}

// editBytes damages a text without regard for its encoding.
func editBytes(s string, r *rand.Rand) string {
	b := []byte(s)
	for n := 1 + r.Intn(4); n > 0 && len(b) > 0; n-- {
		i := r.Intn(len(b))
		switch r.Intn(5) {
		case 0:
			b = append(b[:i:i], b[i+1:]...)
		case 1:
			b[i] = byte(r.Intn(256))
		case 2:
			b = b[:i]
		case 3:
			j := i + r.Intn(len(b)-i)
			b = append(b[:j:j], b[i:]...) // repeat a part
		default:
			j := i + r.Intn(len(b)-i)
			b = append(b[:i:i], b[j:]...)
		}
	}
	return string(b)
}

func tokensOf(src string, d *dial) []*sqltoken.Token {
	l, _ := sqltoken.NewTokenizer(strings.NewReader(src), d.d).Tokenize()
	return l
}

func copyTokens(l []*sqltoken.Token) []*sqltoken.Token {
	out := make([]*sqltoken.Token, len(l))
	for i, t := range l {
		x := *t
		if w, ok := t.Value.(*sqltoken.SQLWord); ok {
			y := *w
			x.Value = &y
		}
		out[i] = &x
	}
	return out
}

func tokensText(l []*sqltoken.Token) string {
	var b strings.Builder
	for _, t := range l {
		b.WriteString(tokStr(t) + " ")
	}
	return b.String()
}

func p11(c *Ctx) {
	c.rule = "every text of up to 3 critical characters, every fragment pair of the grammar, random bytes, damaged statements and scripts, every prefix of statements, random sequences of valid tokens handed over directly: all five parse entry points, every tree printed, walked, rewritten, mapped and asked for positions; deep and long inputs of every repeatable construct in child processes with time and memory limits, and CPU time at sizes n and 8n; distinct by dialect, text and outcome, non-trivial if longer than one byte"
	g := guardStdout(c)
	defer g.end()
	small := []string{"'", "\"", "`", "-", "/", "*", "\n", "\r", "N", " ", "a", "1", ".", "!", "=", "<", ">", ":", "(", ")", ",", ";", "[", "]", "\x00", "\xff", "é", "SELECT ", "NOT ", "@"}
	c.cases("short", len(small)*len(small)*len(small), func(i int, r *rand.Rand) {
		n := len(small)
		c.totalText(small[i%n]+small[i/n%n]+small[i/n/n%n], dials[i%3], g)
	})
	c.cases("pairs", len(fragments), func(i int, r *rand.Rand) {
		for k, f := range fragments {
			c.totalText(fragments[i]+" "+f, dials[(i+k)%3], g)
		}
	})
	c.cases("bytes", c.count(20000), func(i int, r *rand.Rand) { c.totalText(byteSoup(r), dials[i%3], g) })
	c.cases("soup", c.count(20000), func(i int, r *rand.Rand) {
		s := soup(r)
		if r.Intn(2) == 0 {
			s = grammarSoup(r)
			if r.Intn(3) == 0 {
				s = editBytes(s, r)
			}
		}
		c.totalText(s, dials[i%3], g)
	})
	c.cases("damaged", c.count(12000), func(i int, r *rand.Rand) {
		sp := genSpec(r, i, anyStmt, anyStyle, nil)
		c.totalText(mutate(sp, r), sp.d, g)
		c.totalText(editBytes(sp.l.text, r), sp.d, g)
		if i%1999 == 5 {
			c.sample(sp.l.text)
		}
	})
	c.cases("prefixes", c.count(400), func(i int, r *rand.Rand) {
		sp := genSpec(r, i, func(g *exprGen) a.Stmt { g.budget = 4 + g.n(20); return anyStmt(g) }, tightOrPlain, nil)
		// after every item, the text ends or continues at another item
		var b strings.Builder
		for _, it := range sp.em.items {
			b.WriteString(it.text + " ")
			if n := len(sp.em.items); n > 400 && r.Intn(n) > 400 {
				continue // some hundreds of places will do in a huge text
			}
			c.totalText(b.String(), sp.d, g)
			if r.Intn(4) == 0 {
				c.totalText(b.String()+sp.em.items[r.Intn(len(sp.em.items))].text, sp.d, g)
			}
		}
	})
	// sequences of valid tokens that no text need have
	c.cases("tokens", c.count(15000), func(i int, r *rand.Rand) {
		d := dials[i%3]
		var pool []*sqltoken.Token
		for k := 0; k < 3; k++ {
			sp := genSpec(r, i, anyStmt, plainOnly, nil)
			pool = append(pool, tokensOf(sp.l.text, d)...)
		}
		pool = append(pool, tokensOf(soup(r), d)...)
		if len(pool) == 0 {
			return
		}
		var toks []*sqltoken.Token
		for n := r.Intn(5); n >= 0; n-- {
			if r.Intn(3) == 0 {
				toks = append(toks, pool[r.Intn(len(pool))])
			} else {
				at := r.Intn(len(pool))
				end := at + r.Intn(min(30, len(pool)-at)+1)
				toks = append(toks, pool[at:end]...)
			}
		}
		switch r.Intn(3) {
		case 0:
			toks = withoutSpace(toks)
		case 1:
			toks = copyTokens(toks)
			for _, t := range toks { // positions are whatever they are
				t.From, t.To = pos{}, pos{}
			}
		}
		src := tokensText(toks)
		c.total(src, d, g, func(opts ...xsqlparser.ParserOption) (*xsqlparser.Parser, error) {
			return parserFor(toks, opts...), nil
		}, "the tokens")
		c.add("token_sequences", 1)
	})
	if c.only < 0 && c.alone() {
		c.probeAll()
	}
}

func plainOnly(*rand.Rand) gapStyle { return plainStyle }

// ---- long and deep inputs, in child processes

// pattern repeats a part of a text.
type pattern struct {
	name             string
	head, open, core string
	close, tail      string
	entry            int // index into entries
}

var flatPatterns = []pattern{
	{"words", "", "a ", "", "", "", -1},
	{"one-word", "", "a", "", "", "", -1},
	{"digits", "", "1", "", "", "", -1},
	{"string", "'", "é", "'", "", "", -1},
	{"doubled-quotes", "'", "''", "'", "", "", -1},
	{"delimited", "\"", "x", "\"", "", "", -1},
	{"line-comment", "--", "x", "\n", "", "", -1},
	{"block-comment", "/*", "*", "*/", "", "", -1},
	{"line-comments", "", "--x\n", "", "", "", -1},
	{"spaces", "", " ", "", "", "", -1},
	{"line-ends", "", "\r\n", "", "", "", -1},
	{"tabs", "", "\t", "", "", "", -1},
	{"operators", "", "<>", "", "", "", -1},
	{"unclosed", "'", "x", "", "", "", -1},
	{"unclosed-comment", "/*", "x", "", "", "", -1},
	{"statements", "", "SELECT 1;", "", "", "", 0},
	{"semicolons", "", ";", "", "", "", 0},
	{"comments-file", "", "-- c\n", "SELECT 1", "", "", 1},
	{"comment-groups", "SELECT 1", " /* c */ , 1", "", "", "", 1},
	{"commented-statements", "", "-- c\nSELECT 1; -- d\n", "", "", "", 1},
	{"select-list", "SELECT 1", ", a", "", "", "", 0},
	{"from-list", "SELECT 1 FROM t", ", t", "", "", "", 0},
	{"where-and", "SELECT 1 WHERE a", " AND a", "", "", "", 0},
	{"plus", "SELECT 1", " + 1", "", "", "", 0},
	{"minus-minus", "SELECT 1 ", "- ", "1", "", "", 0},
	{"joins", "SELECT 1 FROM t", " JOIN t ON a", "", "", "", 0},
	{"cross-joins", "SELECT 1 FROM t", " CROSS JOIN t", "", "", "", 0},
	{"natural-joins", "SELECT 1 FROM t", " NATURAL JOIN t", "", "", "", 0},
	{"unions", "SELECT 1", " UNION SELECT 1", "", "", "", 0},
	{"intersects", "SELECT 1", " INTERSECT SELECT 1", "", "", "", 0},
	{"casts", "SELECT 1", "::INT", "", "", "", 0},
	{"is-null", "SELECT 1", " IS NULL", "", "", "", 0},
	{"in-list", "SELECT 1 IN (1", ", 1", ")", "", "", 0},
	{"case-arms", "SELECT CASE ", "WHEN 1 THEN 2 ", "END", "", "", 0},
	{"compound", "SELECT a", ".a", "", "", "", 0},
	{"arguments", "SELECT f(1", ", 1", ")", "", "", 0},
	{"group-by", "SELECT 1 GROUP BY a", ", a", "", "", "", 0},
	{"order-by", "SELECT 1 ORDER BY a", ", a DESC", "", "", "", 0},
	{"ctes", "WITH a AS (SELECT 1)", ", a AS (SELECT 1)", " SELECT 1", "", "", 0},
	{"hints", "SELECT 1 FROM t WITH (a", ", a", ")", "", "", 0},
	{"partition-by", "SELECT f() OVER (PARTITION BY a", ", a", ")", "", "", 0},
	{"rows", "INSERT INTO t VALUES (1)", ", (1)", "", "", "", 0},
	{"row", "INSERT INTO t VALUES (1", ", 1", ")", "", "", 0},
	{"insert-columns", "INSERT INTO t (a", ", a", ") VALUES (1)", "", "", 0},
	{"assignments", "UPDATE t SET a = 1", ", a = 1", "", "", "", 0},
	{"columns", "CREATE TABLE t (a INT", ", a INT", ")", "", "", 0},
	{"column-constraints", "CREATE TABLE t (a INT", " NOT NULL", ")", "", "", 0},
	{"table-constraints", "CREATE TABLE t (a INT", ", UNIQUE (a)", ")", "", "", 0},
	{"table-options", "CREATE TABLE t (a INT)", " ENGINE=x", "", "", "", 0},
	{"index-columns", "CREATE INDEX i ON t (a", ", a", ")", "", "", 0},
	{"garbage-after", "SELECT 1 ", ") ", "", "", "", 0},
	{"garbage-list", "SELECT ", "a a, ", "", "", "", 0},
	{"garbage-joins", "SELECT 1 FROM t ", "JOIN ", "", "", "", 0},
	{"garbage-not", "SELECT a ", "NOT ", "", "", "", 0},
	{"expr-or", "a", " OR a", "", "", "", 3},
	{"type-arrays", "TEXT", "[]", "", "", "", 4},
	{"national", "N'", "''", "'", "", "", -1},
	{"delimited-words", "", "\"a\" ", "", "", "", -1},
	{"periods", "", "1.", "", "", "", -1},
	{"letters", "", "é", "", "", "", -1},
	{"carriage-returns", "'", "\r", "'", "", "", -1},
	{"slashes", "", "/ ", "", "", "", -1},
	{"bars", "", "||", "", "", "", -1},
	{"block-comments", "", "/* c */", "", "", "", -1},
	{"block-comment-lines", "/*", "\n", "*/", "", "", -1},
	{"strings", "", "'a' ", "", "", "", -1},
	{"bad-characters", "", "\x01", "", "", "", -1},
	{"comment-lines-inside", "SELECT 1", "\n-- c\n, 1", "", "", "", 1},
	{"comment-block", "", "-- c\n", "SELECT 1", ";-- d\n", "", 1},
	{"statements-with-comments", "", "SELECT /* c */ 1 -- d\n;", "", "", "", 1},
	{"tables-with-comments", "", "-- c\nCREATE TABLE t (\n-- d\na INT -- e\n);\n", "", "", "", 1},
	{"spaces-inside", "SELECT 1", "    ", ", 1", "", "", 0},
	{"columns-with-comments", "CREATE TABLE t (a INT", ", -- c\na INT", ")", "", "", 1},
	{"with-rows", "INSERT INTO t (a) VALUES (1)", ", (1, 2)", " ON DUPLICATE KEY UPDATE a = 1", "", "", 0},
	{"duplicate-updates", "INSERT INTO t VALUES (1) ON DUPLICATE KEY UPDATE a = 1", ", a = 1", "", "", "", 0},
	{"using", "SELECT 1 FROM t JOIN t USING (a", ", a", ")", "", "", 0},
	{"unique-columns", "CREATE TABLE t (UNIQUE (a", ", a", "))", "", "", 0},
	{"key-columns", "CREATE TABLE t (CONSTRAINT c FOREIGN KEY (a) REFERENCES b(a", ", a", "))", "", "", 0},
	{"checks", "CREATE TABLE t (a INT", " CHECK (a > 1)", ")", "", "", 0},
	{"named-constraints", "CREATE TABLE t (a INT", " CONSTRAINT x UNIQUE", ")", "", "", 0},
	{"references", "CREATE TABLE t (a INT", " REFERENCES b(a)", ")", "", "", 0},
	{"cte-columns", "WITH a (b", ", b", ") AS (SELECT 1) SELECT 1", "", "", 0},
	{"in-strings", "SELECT 1 IN ('a'", ", 'a'", ")", "", "", 0},
	{"or-and", "SELECT 1 WHERE a", " OR a AND b", "", "", "", 0},
	{"compare", "SELECT 1 WHERE a", " = a", "", "", "", 0},
	{"between-and", "SELECT a BETWEEN 1 AND 2", " AND a BETWEEN 1 AND 2", "", "", "", 0},
	{"aliases", "SELECT a AS b", ", a AS b", "", "", "", 0},
	{"bare-aliases", "SELECT a b", ", a b", "", "", "", 0},
	{"wildcards", "SELECT t.*", ", t.*", "", "", "", 0},
	{"calls", "SELECT f(1)", ", f(1)", "", "", "", 0},
	{"windows", "SELECT f(1)", ", f() OVER (ORDER BY a ROWS BETWEEN 1 PRECEDING AND CURRENT ROW)", "", "", "", 0},
	{"small-queries", "SELECT (SELECT 1)", ", (SELECT 1)", "", "", "", 0},
	{"small-parens", "SELECT (1)", ", (1)", "", "", "", 0},
	{"small-cases", "SELECT 1", ", CASE a WHEN 1 THEN 2 ELSE 3 END", "", "", "", 0},
	{"casts-list", "SELECT 1", ", CAST(a AS VARCHAR(10))", "", "", "", 0},
	{"lateral-list", "SELECT 1 FROM t", ", LATERAL (SELECT 1) AS x", "", "", "", 0},
	{"union-alls", "SELECT 1", " UNION ALL (SELECT 1)", "", "", "", 0},
	{"except-intersect", "SELECT 1", " EXCEPT SELECT 1 INTERSECT SELECT 2", "", "", "", 0},
	{"left-joins", "SELECT 1 FROM t", " LEFT OUTER JOIN t USING (a)", "", "", "", 0},
	{"derived-list", "SELECT 1 FROM t", ", (SELECT 1) x", "", "", "", 0},
	{"dates", "SELECT 1", ", DATE '2000-01-01'", "", "", "", 0},
	{"likes", "SELECT a", " LIKE b", "", "", "", 0},
	{"exists-list", "SELECT 1 WHERE EXISTS (SELECT 1)", " AND NOT EXISTS (SELECT 1)", "", "", "", 0},
	{"garbage-commas", "SELECT 1", " ,", "", "", "", 0},
	{"garbage-dots", "SELECT a", " .", "", "", "", 0},
	{"garbage-with", "WITH ", "a AS (SELECT 1), ", "", "", "", 0},
	{"garbage-columns", "CREATE TABLE t (", "a ", "", "", "", 0},
	{"garbage-case", "SELECT CASE ", "WHEN 1 ", "", "", "", 0},
	{"garbage-statements", "", "SELECT 1; ", "SELECT )", "", "", 0},
}

var deepPatterns = []pattern{
	{"parens", "SELECT ", "(", "1", ")", "", 0},
	{"parens-unclosed", "SELECT ", "(", "1", "", "", 0},
	{"not", "SELECT ", "NOT ", "1", "", "", 0},
	{"subqueries", "SELECT ", "(SELECT ", "1", ")", "", 0},
	{"derived", "SELECT 1 FROM ", "(SELECT 1 FROM ", "t", ")", "", 0},
	{"derived-alias", "SELECT 1 FROM ", "(SELECT 1 FROM ", "t", ") AS x", "", 0},
	{"lateral", "SELECT 1 FROM ", "LATERAL (SELECT 1 FROM ", "t", ")", "", 0},
	{"join-parens", "SELECT 1 FROM ", "(", "t JOIN t ON 1", ")", "", 0},
	{"on-chain", "SELECT 1 FROM t", " JOIN t", "", " ON 1", "", 0},
	{"query-parens", "", "(", "SELECT 1", ")", "", 0},
	{"union-parens", "", "(SELECT 1 UNION ", "SELECT 1", ")", "", 0},
	{"exists", "SELECT 1 WHERE ", "EXISTS (SELECT 1 WHERE ", "1", ")", "", 0},
	{"in-query", "SELECT 1 WHERE ", "1 IN (SELECT 1 WHERE ", "1", ")", "", 0},
	{"in-list", "SELECT ", "1 IN (", "1", ")", "", 0},
	{"functions", "SELECT ", "f(", "1", ")", "", 0},
	{"case", "SELECT ", "CASE WHEN 1 THEN ", "1", " END", "", 0},
	{"case-operand", "SELECT ", "CASE ", "1", " WHEN 1 THEN 1 END", "", 0},
	{"case-else", "SELECT ", "CASE WHEN 1 THEN 1 ELSE ", "1", " END", "", 0},
	{"cast", "SELECT ", "CAST(", "1", " AS INT)", "", 0},
	{"between", "SELECT ", "1 BETWEEN ", "1", " AND 1", "", 0},
	{"between-right", "SELECT ", "1 BETWEEN 1 AND ", "1", "", "", 0},
	{"over", "SELECT ", "f() OVER (ORDER BY ", "1", ")", "", 0},
	{"with", "", "WITH a AS (", "SELECT 1", ") SELECT 1", "", 0},
	{"explain", "", "EXPLAIN ", "SELECT 1", "", "", 0},
	{"precedence", "SELECT ", "1 OR 1 AND 1 = 1 + 1 * (", "1", ")", "", 0},
	{"table-function", "SELECT 1 FROM ", "f(", "1", ")", "", 0},
	{"check", "CREATE TABLE t (a INT CHECK (", "(", "1", ")", "))", 0},
	{"insert-query", "INSERT INTO t ", "(", "SELECT 1", ")", "", 0},
	{"unary", "SELECT ", "- + ", "1", "", "", 0},
	{"expr", "", "(", "1", ")", "", 3},
}

func (p *pattern) text(n int) string {
	return p.head + strings.Repeat(p.open, n) + p.core + strings.Repeat(p.close, n) + p.tail
}

type probeResult struct {
	Outcome string  // "ok", "error: ..." or "panic: ..."
	CPU     float64 // seconds to tokenize and parse
	Use     float64 // seconds to use the trees
	Heap    uint64
	Stdout  string
}

func cpuNow() float64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

// probeMain runs one input: probe kind name n repeat.
func probeMain(args []string) {
	var p *pattern
	list := flatPatterns
	if args[0] == "deep" {
		list = deepPatterns
	}
	for i := range list {
		if list[i].name == args[1] {
			p = &list[i]
		}
	}
	var n, rep int
	fmt.Sscan(args[2], &n)
	fmt.Sscan(args[3], &rep)
	debug.SetGCPercent(200)
	go func() {
		for {
			time.Sleep(50 * time.Millisecond)
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc+m.StackInuse > 5<<30 {
				fmt.Fprintln(os.Stderr, "PROBE-MEMORY")
				os.Exit(7)
			}
		}
	}()
	real := os.Stdout
	os.Stdout, _ = os.CreateTemp(os.Getenv("VERIF_WORK"), "probe")
	log.SetOutput(os.Stdout)
	src := p.text(n)
	res := probeResult{CPU: 1e9}
	for k := 0; k < rep; k++ {
		runtime.GC()
		func() {
			defer func() {
				if r := recover(); r != nil {
					res.Outcome = "panic: " + firstLine(fmt.Sprint(r))
				}
			}()
			t := cpuNow()
			var trees []a.Node
			var err error
			if p.entry < 0 {
				_, err = sqltoken.NewTokenizer(strings.NewReader(src), dials[0].d).Tokenize()
			} else {
				var opts []xsqlparser.ParserOption
				if p.entry == 1 {
					opts = append(opts, xsqlparser.ParseComment())
				}
				var ps *xsqlparser.Parser
				ps, err = xsqlparser.NewParser(strings.NewReader(src), dials[0].d, opts...)
				if err == nil {
					trees, err = entries[p.entry].run(ps)
				}
			}
			if d := cpuNow() - t; d < res.CPU {
				res.CPU = d
			}
			res.Outcome = "ok"
			if err != nil {
				res.Outcome = "error: " + firstLine(err.Error())
				return
			}
			t = cpuNow()
			for _, x := range trees {
				if s := exercise(x); s != "" {
					res.Outcome = "panic: " + s
				}
			}
			res.Use = cpuNow() - t
		}()
	}
	st, _ := os.Stdout.Stat()
	if st != nil && st.Size() > 0 {
		res.Stdout = fmt.Sprintf("%d bytes", st.Size())
	}
	os.Remove(os.Stdout.Name())
	json.NewEncoder(real).Encode(res)
}

// probe runs one input in a child process.
func (c *Ctx) probe(kind string, p *pattern, n, rep int, limit time.Duration) *probeResult {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, selfPath(), "probe", kind, p.name, fmt.Sprint(n), fmt.Sprint(rep))
	var out bytes.Buffer
	var errs tail
	cmd.Stdout, cmd.Stderr = &out, &errs
	err := cmd.Run()
	input := fmt.Sprintf("%s, %d times: %s", p.name, n, p.text(min(n, 3)))
	key := kind + ":" + p.name
	c.eval(true, key, n)
	c.add("child_processes", 1)
	if ctx.Err() != nil {
		c.violate(key+":time", fmt.Sprintf("no result within %v", limit), input)
		return nil
	}
	var r probeResult
	if err != nil || json.Unmarshal(out.Bytes(), &r) != nil {
		c.violate(key+":crash", fmt.Sprintf("the process ended with %v: %s", err, firstLine(errs.head.String())), input+"\n"+errs.head.String())
		return nil
	}
	if strings.HasPrefix(r.Outcome, "panic") {
		c.violate(key+":panic", r.Outcome, input)
	}
	if r.Stdout != "" {
		c.violate(key+":stdout", "written to standard output or the log: "+r.Stdout, input)
	}
	if r.Outcome == "ok" {
		c.add("long_inputs_accepted", 1)
	} else {
		c.add("long_inputs_rejected", 1)
	}
	return &r
}

func (c *Ctx) probeAll() {
	sizes := []int{60, 3000, 150000}
	if c.Thorough {
		sizes = []int{20, 60, 1000, 20000, 99990, 150000, 1000000}
	}
	for i := range deepPatterns {
		p := &deepPatterns[i]
		for _, n := range sizes {
			if c.probe("deep", p, n, 1, 60*time.Second) == nil {
				break
			}
		}
	}
	for i := range flatPatterns {
		n := 4000
		if flatPatterns[i].entry < 0 {
			n = 40000 // copying bytes again and again shows late
		}
		c.scales("flat", &flatPatterns[i], n)
		if c.Thorough {
			c.probe("flat", &flatPatterns[i], 1000000, 1, 100*time.Second)
		}
	}
	for i := range deepPatterns {
		c.scales("deep", &deepPatterns[i], 1500)
	}
	if m, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_WORK"), "probe*")); len(m) > 0 {
		for _, f := range m {
			os.Remove(f)
		}
	}
}

// scales compares the CPU time at n and 8n repetitions: 8 is proportional, 64
// quadratic. A suspicion is measured again, with more care.
func (c *Ctx) scales(kind string, p *pattern, n int) {
	const limit = 26
	worst := 0.0
	for try := 0; try < 4; try++ {
		rep := 2 + 2*try
		x := c.probe(kind, p, n, rep, 100*time.Second)
		if x == nil {
			return
		}
		y := c.probe(kind, p, 8*n, rep, 100*time.Second)
		if y == nil {
			return
		}
		small := x.CPU
		if small < 0.0005 {
			small = 0.0005
		}
		ratio := y.CPU / small
		if ratio <= limit || y.CPU < 0.15 {
			c.add("sizes_compared", 1)
			return
		}
		worst = ratio
	}
	c.violate(kind+":"+p.name+":scaling", fmt.Sprintf("8 times the input takes %.0f times as long", worst), fmt.Sprintf("%s, %d and %d times: %s", p.name, n, 8*n, p.text(2)))
}

func init() { extra["probe"] = probeMain }
