package main

// P27: dialects that are not shipped. They are drawn at random and answer from
// sets of characters; the oracles are the reference lexer and the generated
// tree, as for the shipped ones.

import (
	"fmt"
	"math/rand"
	"strings"

	a "github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// ownDialect is a dialect of a user. It also gives up on a tokenizer that keeps
// asking about the end of the input.
type ownDialect struct {
	start, part, quote func(r rune) bool
	asked              *int
	end                bool // the answer for what is no character
}

type endlessError struct{}

func (o *ownDialect) answer(f func(rune) bool, r rune) bool {
	if r < 0 {
		*o.asked++
		if *o.asked > 100000 {
			panic(endlessError{})
		}
		return o.end
	}
	return f(r)
}

func (o *ownDialect) IsIdentifierStart(r rune) bool          { return o.answer(o.start, r) }
func (o *ownDialect) IsIdentifierPart(r rune) bool           { return o.answer(o.part, r) }
func (o *ownDialect) IsDelimitedIdentifierStart(r rune) bool { return o.answer(o.quote, r) }

// ownValue is the same as a value instead of a pointer.
type ownValue struct{ *ownDialect }

var ownLetters = [][]rune{[]rune("éèüÄßñç"), []rune("世界表列"), []rune("αβΩ"), []rune("жЯ"), []rune("😀🙂"), []rune("#"), []rune("$"), []rune("_"), []rune("@"), []rune("~?"), []rune("^|"), []rune("e\u0301"), []rune("İ"), []rune("\U0010fffe")}

// ownDial draws a dialect under which every statement can be written.
func ownDial(r *rand.Rand) *dial { return ownDialOf(r, false) }

// ownDialOf draws a dialect; a wild one may admit digits as the start of names
// and any sign inside of them.
func ownDialOf(r *rand.Rand, wild bool) *dial {
	d := &dial{first: []rune{}, inner: []rune{'_'}}
	for _, l := range ownLetters {
		switch r.Intn(4) {
		case 0:
			d.first = append(d.first, l...)
			d.inner = append(d.inner, l...)
		case 1:
			d.inner = append(d.inner, l...)
		case 2:
			if r.Intn(3) == 0 {
				d.first = append(d.first, l...) // starts a name, but is not inside of one
			}
		}
	}
	if r.Intn(4) > 0 {
		d.inner = append(d.inner, []rune("0123456789")...)
	}
	pick := func(set string) rune { return []rune(set)[r.Intn(len([]rune(set)))] }
	for wild && r.Intn(3) == 0 {
		d.inner = append(d.inner, pick("'\"`[].,;:()-+*/%<>=!&{}\\ \t\x00"))
	}
	if wild && r.Intn(4) == 0 {
		d.first = append(d.first, []rune("0123456789")[:1+r.Intn(10)]...)
	}
	for wild && r.Intn(4) == 0 {
		d.first = append(d.first, pick("].,;:()+*%<>=!&{}\\\x00")) // comments and strings start first
	}
	for _, q := range "\"`[" {
		if r.Intn(2) == 0 {
			d.quotes = append(d.quotes, q)
		}
	}
	if len(d.quotes) == 0 {
		d.quotes = []rune{[]rune("\"`[")[r.Intn(3)]}
	}
	in := func(set []rune) func(rune) bool {
		m := map[rune]bool{}
		for _, c := range set {
			m[c] = true
		}
		return func(c rune) bool { return m[c] || letter(c) }
	}
	d.start, d.part = in(d.first), in(d.inner)
	o := &ownDialect{start: d.start, part: d.part, quote: d.quoted, asked: new(int), end: r.Intn(3) == 0}
	d.d = o
	if r.Intn(3) == 0 {
		d.d = ownValue{o}
	}
	d.name = fmt.Sprintf("own: first %q inner %q quotes %q end %v", string(d.first), string(d.inner), string(d.quotes), o.end)
	return d
}

// guard reports a tokenizer that does not stop at the end of the input.
func (c *Ctx) guard(src string, d *dial, f func()) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(endlessError); !ok {
				panic(p)
			}
			c.violate("endless", fmt.Sprintf("the tokenizer asks the dialect about the end of the input without end (dialect %s)", d.name), src)
		}
	}()
	f()
}

// spelled tells whether the dialect leaves every word, literal and sign of the
// statement what it is elsewhere.
func (sp *spec) spelled() bool {
	toks, err := lexRef(sp.l.text, sp.d)
	if err != nil {
		return false
	}
	k := 0
	rs := []rune(sp.l.text)
	for _, t := range toks {
		if t.isSpace() {
			continue
		}
		if k == len(sp.em.items) {
			return false
		}
		it := sp.em.items[k]
		if !strings.EqualFold(it.text, string(rs[t.start:t.end])) {
			return false
		}
		word := t.kind == sqltoken.SQLKeyword
		switch it.kind {
		case iKeyword, iName:
			if !word {
				return false
			}
		default:
			if c := []rune(it.text)[0]; word && !(letter(c) || c == '_') {
				return false
			}
		}
		k++
	}
	return k == len(sp.em.items)
}

func p27(c *Ctx) {
	c.rule = "random dialects of our own (letters of any script and signs that can start a name, be inside of one, or both; any of the three quote styles; given by pointer or value; some answer yes for the end of the input) x the soups of P01 made of their characters -> kinds, texts, quote styles and positions of the tokens against the reference lexer; generated statements with names of the dialect -> tree against the generated one, and printed and parsed again; distinct by dialect and text, non-trivial if two or more tokens"
	check := func(src string, d *dial) {
		c.guard(src, d, func() {
			c.checkTokens(src, d)
			c.checkExtents(src, d)
		})
	}
	c.cases("texts", c.count(6000), func(i int, r *rand.Rand) {
		d := ownDialOf(r, i%2 == 0)
		g := newG(r, d, 1)
		word := func() string {
			var b strings.Builder
			for n := 1 + r.Intn(5); n > 0; n-- {
				switch k := r.Intn(5); {
				case k == 0 && len(d.first) > 0:
					b.WriteRune(d.first[r.Intn(len(d.first))])
				case k == 1:
					b.WriteRune(d.inner[r.Intn(len(d.inner))])
				case k == 2:
					l := ownLetters[r.Intn(len(ownLetters))]
					b.WriteRune(l[r.Intn(len(l))])
				default:
					b.WriteByte("abNnZ19"[r.Intn(7)])
				}
			}
			return b.String()
		}
		for n := 0; n < 3; n++ {
			check(word(), d)
			var b strings.Builder
			for k := 1 + r.Intn(8); k > 0; k-- {
				switch r.Intn(5) {
				case 0:
					b.WriteString(word())
				case 1:
					b.WriteString(g.newName())
				case 2:
					b.WriteString(soupElems[r.Intn(len(soupElems))])
				case 3:
					b.WriteString([]string{"[", "]", "[a]", "[a]]", "[\"]", "`[`", "\"]\"", "[\n]", "[]", "[é"}[r.Intn(10)])
				default:
					b.WriteString([]string{" ", "\n", ".", ",", "(", ")", "'", "1", "0.5"}[r.Intn(9)])
				}
			}
			check(b.String(), d)
		}
		check(soup(r), d)
		check(charSoup(r), d)
		c.add("dialects", 1)
	})
	c.cases("keywords", len(frozenKeywords), func(i int, r *rand.Rand) {
		w := sortedKeywords[i]
		d := ownDialOf(r, i%3 == 0)
		check(w+" "+strings.ToLower(w)+" "+caseKeyword(w, 2, r), d)
		check(w+string(d.inner[r.Intn(len(d.inner))])+" "+string(d.quotes[0])+w+string(closing(d.quotes[0])), d)
	})
	c.cases("stmts", c.count(4000), func(i int, r *rand.Rand) {
		d := ownDialOf(r, i%3 == 0)
		sp := genSpecFor(r, d, anyStmt, anyStyle, nil)
		if i%3 == 0 && !sp.spelled() {
			c.add("skipped_wild_statements", 1) // an operator or a number is a name in such a dialect
			return
		}
		if d.quoted('[') {
			for _, it := range sp.em.items {
				if it.text == "[" {
					c.add("skipped_array_types", 1) // [] is a name in such a dialect
					return
				}
			}
		}
		c.guard(sp.l.text, d, func() {
			before := len(c.viol)
			c.checkStmtText(sp, r.Intn(6))
			c.eval(len(sp.em.items) > 8, d.name, sp.l.text)
			c.checkTokens(sp.l.text, d)
			c.checkExtents(sp.l.text, d)
			if len(c.viol) != before {
				return
			}
			if i%3 == 0 {
				c.add("wild_statements", 1)
				return // printed without the spaces that such a dialect may need
			}
			got, err := parseStmt(sp.l.text, d)
			if err != nil {
				return
			}
			printed := got.ToSQLString()
			again, err := parseSQL(printed, d)
			if err != nil || len(again) != 1 {
				c.violate("reparse", fmt.Sprintf("printed text is rejected (%d statements, dialect %s): %v", len(again), d.name, err), printed)
				return
			}
			if df := diffTrees(again[0], a.Stmt(got), false); df != "" {
				c.violate("reparse:"+diffKey(df), fmt.Sprintf("printed text parses to another tree (dialect %s): %s", d.name, df), printed)
			}
			c.add("statements", 1)
			if i%701 == 5 {
				c.sample(d.name + ": " + sp.l.text)
			}
		})
	})
}
