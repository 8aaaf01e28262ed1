package main

// P01-P04: tokens, positions, entry points and readers. The oracle for P01 and
// P02 is the reference lexer; for P03 and P04 the plain run over a string.

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
	"syscall"
	"testing/iotest"
	"unicode/utf8"

	"github.com/akito0107/xsqlparser"
	a "github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// tokenText returns the decoded text and the quote style of a token.
func tokenText(t *sqltoken.Token) (string, rune, bool) {
	switch v := t.Value.(type) {
	case *sqltoken.SQLWord:
		if v == nil {
			return "", 0, false
		}
		return v.Value, v.QuoteStyle, t.Kind == sqltoken.SQLKeyword
	case string:
		return v, 0, t.Kind != sqltoken.SQLKeyword
	case rune:
		return string(v), 0, true
	}
	return fmt.Sprint(t.Value), 0, false
}

func tokStr(t *sqltoken.Token) string {
	if t == nil {
		return "nil"
	}
	s, q, _ := tokenText(t)
	return fmt.Sprintf("%v %q quote %q %d:%d-%d:%d", t.Kind, s, q, t.From.Line, t.From.Col, t.To.Line, t.To.Col)
}

// diffTokens compares two lists of tokens completely.
func diffTokens(x, y []*sqltoken.Token) string {
	for i := 0; i < len(x) || i < len(y); i++ {
		if i >= len(x) || i >= len(y) {
			return fmt.Sprintf("%d vs %d tokens", len(x), len(y))
		}
		if d := diffTok(x[i], y[i]); d != "" {
			return fmt.Sprintf("token %d: %s", i, d)
		}
	}
	return ""
}

func diffTok(x, y *sqltoken.Token) string {
	if tokStr(x) != tokStr(y) {
		return tokStr(x) + " vs " + tokStr(y)
	}
	wx, okx := x.Value.(*sqltoken.SQLWord)
	wy, oky := y.Value.(*sqltoken.SQLWord)
	if okx != oky || okx && *wx != *wy {
		return fmt.Sprintf("values %#v vs %#v", x.Value, y.Value)
	}
	return ""
}

// ---- texts

// soupElems are lexical elements and fragments to be strung together.
var soupElems = []string{
	"a", "b1", "_x", "@v", "x$y", "N", "n", "Na", "N1", "SELECT", "select", "Select", "from", "NULL", "é", "世界", "\u00a0", "\u2028", "😀", "\ufeff",
	"0", "1", "12", "1.5", "1.", ".5", "..", "1.2.3", "007", "1e5",
	"'", "''", "'a'", "'it''s'", "N'x'", "N'", "n'y'", "'a\nb'", "'\r\n'", "'\t'", "'é'", "'--'", "'/*'",
	"\"", "\"a\"", "\"sel ect\"", "\"\"", "\"a\nb\"", "\"a`b\"", "`", "`a`", "`b\"c`", "``", "[", "]", "[a]", "\"\t\"", "\"世\"",
	"-", "--", "-- c\n", "--c\r\n", "--\r", "--x", "- -", "/", "*", "/*", "*/", "/**/", "/* c */", "/***/", "/*\n*/", "/*\r\n x*/", "/*/*/", "/* -- */", "/*'*/", "/*\t*/",
	"=", "!", "!=", "<", ">", "<=", ">=", "<>", "=<", "=>", "><", ":", "::", ":::", ";", ",", ".", "(", ")", "+", "%", "\\", "&", "{", "}", "|", "^", "~", "#", "?", "$", "_", "@",
	" ", "  ", "\t", "\n", "\r", "\r\n", "\n\r", "\v", "\f", "\x01", "\x7f", "\x00", "\ufffd", "\uffff", "'\x00'", "'\ufffd'", "/*\ufffd*/", "\"\x00\ufffd\"",
}

func soup(r *rand.Rand) string {
	var b strings.Builder
	for n := 1 + r.Intn(12); n > 0; n-- {
		b.WriteString(soupElems[r.Intn(len(soupElems))])
		if r.Intn(6) == 0 {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

func charSoup(r *rand.Rand) string {
	var b strings.Builder
	for n := 1 + r.Intn(30); n > 0; n-- {
		switch r.Intn(8) {
		case 0:
			c := rune(r.Intn(0x10FFFF))
			if c >= 0xD800 && c < 0xE000 {
				c = 'x'
			}
			b.WriteRune(c)
		case 1:
			b.WriteRune([]rune("'\"`-/*\n\r\tN!.<>:=[]")[r.Intn(18)])
		case 2:
			b.WriteRune(oddRune(r))
		case 3:
			b.WriteRune(rune(0x80 + r.Intn(0x300)))
		default:
			b.WriteRune(rune(1 + r.Intn(126)))
		}
	}
	return b.String()
}

// editText makes small edits in a text, at the level of characters.
func editText(s string, r *rand.Rand) string {
	rs := []rune(s)
	for n := 1 + r.Intn(3); n > 0 && len(rs) > 0; n-- {
		i := r.Intn(len(rs))
		switch r.Intn(4) {
		case 0:
			rs = append(rs[:i], rs[i+1:]...)
		case 1:
			e := []rune(soupElems[r.Intn(len(soupElems))])
			rs = append(rs[:i], append(e, rs[i:]...)...)
		case 2:
			rs[i] = []rune(soupElems[r.Intn(len(soupElems))])[0]
		default:
			rs = rs[:i]
		}
	}
	return string(rs)
}

func scriptText(r *rand.Rand, i int) (string, *dial) {
	d := dials[i%3]
	var b strings.Builder
	for n := 1 + r.Intn(3); n > 0; n-- {
		sp := genSpec(r, i, anyStmt, anyStyle, nil)
		b.WriteString(sp.l.text)
		if endsInLineComment(sp) {
			b.WriteString("\n")
		}
		b.WriteString(";")
	}
	return b.String(), d
}

func endsInLineComment(sp *spec) bool {
	n := len(sp.l.comments)
	return n > 0 && sp.l.comments[n-1].to == sp.l.end
}

// longText exceeds the reader's buffer several times.
func longText(r *rand.Rand, i int, min int) (string, *dial) {
	var b strings.Builder
	d := dials[i%3]
	for b.Len() < min {
		t, _ := scriptText(r, i)
		b.WriteString(t)
		if r.Intn(4) == 0 {
			b.WriteString(strings.Repeat(" ", r.Intn(300)))
		}
		if r.Intn(4) == 0 {
			b.WriteString("SELECT '" + strings.Repeat("é", r.Intn(400)) + "';")
		}
		if r.Intn(6) == 0 {
			b.WriteString("/*" + strings.Repeat("世*", r.Intn(400)) + "*/")
		}
	}
	return b.String(), d
}

// lexTexts calls f with texts of every kind.
func (c *Ctx) lexTexts(quick int, f func(src string, d *dial)) {
	small := []rune("'\"`-/*\n\r\tN a1.!=<>:")
	depth := 3
	if c.Thorough {
		depth = 4
	}
	total := 0
	for k, n := 1, len(small); k <= depth; k++ {
		total += n
		n *= len(small)
	}
	c.cases("short", total, func(i int, r *rand.Rand) {
		k, n := i, len(small)
		var b []rune
		for width := 1; ; width++ {
			if k < n {
				for j := 0; j < width; j++ {
					b = append(b, small[k%len(small)])
					k /= len(small)
				}
				break
			}
			k -= n
			n *= len(small)
		}
		for _, d := range dials {
			f(string(b), d)
		}
		c.add("short_texts_enumerated", 1)
	})
	c.cases("chars", 0x300+200, func(i int, r *rand.Rand) {
		ch := rune(i + 1)
		if ch > 0x300 {
			ch = rune(0x300 + r.Intn(0xD000-0x300))
			if r.Intn(3) == 0 {
				ch = rune(0x10000 + r.Intn(0x100000))
			}
		}
		for _, d := range dials {
			f(string(ch), d)
			f("a"+string(ch)+"b", d)
			f("1"+string(ch)+"'"+string(ch)+"'", d)
			f(string(ch)+string(ch)+" "+string(ch), d)
		}
	})
	c.cases("words", len(frozenKeywords), func(i int, r *rand.Rand) {
		w := sortedKeywords[i]
		d := dials[i%3]
		f(w, d)
		f(strings.ToLower(w), d)
		f(caseKeyword(w, 2, r), d)
		f(w+"x "+w+"_ "+w+"1 x"+w, d)
		f("\""+w+"\" \""+strings.ToLower(w)+"\"", d)
		c.add("keywords", 1)
	})
	c.cases("soup", c.count(quick), func(i int, r *rand.Rand) { f(soup(r), dials[i%3]) })
	c.cases("charsoup", c.count(quick), func(i int, r *rand.Rand) { f(charSoup(r), dials[i%3]) })
	c.cases("stmts", c.count(quick/2), func(i int, r *rand.Rand) {
		s, d := scriptText(r, i)
		f(s, d)
		f(editText(s, r), d)
	})
	// lengths and places that buffers and narrow counters would get wrong
	c.cases("sizes", len(sized)*len(sizes), func(i int, r *rand.Rand) {
		e, n := i%len(sized), sizes[i/len(sized)]
		d := dials[r.Intn(3)]
		f("a "+sized[e](n)+" 'x' b", d)
		c.add("sized_elements", 1)
	})
	c.cases("straddle", len(straddlers)*3*2, func(i int, r *rand.Rand) {
		s := straddlers[i/6]
		at := []int{1024, 2048, 4096}[i%3]
		for k := -1; k <= len(s)+1; k++ {
			fill := strings.Repeat(" ", at-k)
			if i/3%2 == 1 {
				fill = "/*" + strings.Repeat("c", at-k-4) + "*/"
			}
			f(fill+s+" z", dials[i%3])
			f("'"+strings.Repeat("c", at-k-1)+s+"' z", dials[i%3])
		}
	})
	c.cases("long", c.count(quick/200), func(i int, r *rand.Rand) {
		s, d := longText(r, i, 1000+r.Intn(8000))
		f(s, d)
		f(editText(s, r), d)
	})
}

// sizes are lengths around the powers of two and a few beyond.
var sizes = []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10001, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 100001}

// size draws one of sizes of at most max, small ones more often.
func size(r *rand.Rand, max int) int {
	for {
		n := sizes[r.Intn(len(sizes))]
		if n <= max && (n < 300 || r.Intn(3) == 0) {
			return n
		}
	}
}

// elements of a given length, each the only long thing of its text
var sized = []func(n int) string{
	func(n int) string { return strings.Repeat("a", n) },
	func(n int) string { return "x" + strings.Repeat("9", n-1) },
	func(n int) string { return "N" + strings.Repeat("b", n-1) },
	func(n int) string { return strings.Repeat("7", n) },
	func(n int) string { return strings.Repeat("1.", n/2) },
	func(n int) string { return "'" + strings.Repeat("s", n) + "'" },
	func(n int) string { return "'" + strings.Repeat("é", n) + "'" },
	func(n int) string { return "'" + strings.Repeat("''", n) + "'" },
	func(n int) string { return "'" + strings.Repeat("\n", n) + "'" },
	func(n int) string { return "N'" + strings.Repeat("世", n) + "'" },
	func(n int) string { return "\"" + strings.Repeat("q", n) + "\"" },
	func(n int) string { return "\"" + strings.Repeat("q\r\n", n) + "\"" },
	func(n int) string { return "--" + strings.Repeat("c", n) + "\n" },
	func(n int) string { return "--" + strings.Repeat("😀", n) + "\r" },
	func(n int) string { return "/*" + strings.Repeat("c", n) + "*/" },
	func(n int) string { return "/*" + strings.Repeat("*", n) + "*/" },
	func(n int) string { return "/*" + strings.Repeat("\n *", n) + "*/" },
	func(n int) string { return strings.Repeat(" ", n) },
	func(n int) string { return strings.Repeat("\t", n) },
	func(n int) string { return strings.Repeat("\n", n) },
	func(n int) string { return strings.Repeat("\r", n) },
	func(n int) string { return strings.Repeat("\r\n", n) },
	func(n int) string { return strings.Repeat("(", n) },
	func(n int) string { return strings.Repeat("é", n) },
	func(n int) string { return strings.Repeat("a b ", n/4) },
	func(n int) string { return strings.Repeat("<>", n/2) },
	func(n int) string { return strings.Repeat("''", n/2) },
}

// straddlers stand across the end of a read buffer.
var straddlers = []string{"é", "世", "😀", "\r\n", "''", "'a''b'", "*/", "/*x*/", "--x\n", "<>", "!=", "::", "<=", "N'x'", "Na", "12.5", "ab", "\"a\"", "SELECT", "\r\r", "\n\r"}

const lexRule = "(P01: every byte value inside of every kind of element, texts with bytes that are not UTF-8) every kind of element with lengths around the powers of two up to 100001, every straddling element across the ends of the scanner's buffer, all texts of up to 3 (thorough: 4) characters over 19 critical ones, every character up to U+0300 alone and inside words, every keyword in 3 letter cases, random soups of elements and of characters, generated scripts and their edits, texts of several buffer lengths, in 3 dialects; distinct by dialect and text, non-trivial if the text has two or more tokens"

func p01(c *Ctx) {
	c.rule = lexRule
	c.lexTexts(20000, c.checkTokens)
	// bytes that are not UTF-8
	c.cases("bytes", 256, func(i int, r *rand.Rand) {
		for _, d := range dials {
			for _, f := range []string{"%s", "a%s", "%sa", "'%s'", "\"%s\"", "--%s", "/*%s*/", "'%s", "1%s1", "é%s", "%sé", " %s ", "'é%sé'", "\xe4%s", "'\xe4\xb8%s'", "\xf0\x9f%s"} {
				c.checkTokens(strings.Replace(f, "%s", string([]byte{byte(i)}), 1), d)
			}
		}
	})
	c.cases("invalid", c.count(1500), func(i int, r *rand.Rand) {
		var s string
		d := dials[i%3]
		switch r.Intn(3) {
		case 0:
			s = soup(r)
		case 1:
			s, d = scriptText(r, i)
		default:
			s = strings.Repeat("é ", r.Intn(600)) + strings.Repeat("世", r.Intn(900)) + soup(r)
		}
		bad := []string{"\xff", "\x80", "\xc3", "\xe4\xb8", "\xc0\xaf", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe4", "\xf0\x9f\x98"}[r.Intn(9)]
		k := r.Intn(len(s) + 1)
		s = s[:k] + bad + s[k:]
		if utf8.ValidString(s) {
			return
		}
		c.checkTokens(s, d)
		for k, rd := range []io.Reader{iotest.OneByteReader(strings.NewReader(s)), iotest.HalfReader(strings.NewReader(s)), iotest.DataErrReader(strings.NewReader(s))} {
			if _, err := sqltoken.NewTokenizer(rd, d.d).Tokenize(); err == nil {
				c.violate("noerror", fmt.Sprintf("text that is not UTF-8 is tokenized without an error from reader %d", k), s)
			}
		}
		if l, err := parseSQL(s, d); err == nil {
			c.violate("noerror", fmt.Sprintf("text that is not UTF-8 is parsed to %d statements", len(l)), s)
		}
		c.add("invalid_texts", 1)
	})
}

// checkTokens compares the tokens of src with those of the reference lexer.
func (c *Ctx) checkTokens(src string, d *dial) {
	want, werr := lexRef(src, d)
	got, err := sqltoken.NewTokenizer(strings.NewReader(src), d.d).Tokenize()
	c.eval(len(want) > 1, d.name, src)
	c.add("tokens", len(want))
	if werr != nil {
		c.add("erroneous_texts", 1)
		if err == nil {
			c.violate("noerror", fmt.Sprintf("%v, but %d tokens are returned (dialect %s)", werr, len(got), d.name), src)
		}
		return
	}
	if err != nil {
		c.violate("error", fmt.Sprintf("valid text rejected (dialect %s): %v", d.name, err), src)
		return
	}
	for i := 0; i < len(want) || i < len(got); i++ {
		if i >= len(want) || i >= len(got) {
			c.violate("count", fmt.Sprintf("%d tokens instead of %d (dialect %s)", len(got), len(want), d.name), src)
			return
		}
		g, w := got[i], want[i]
		v, q, ok := tokenText(g)
		if g.Kind != w.kind || v != w.val || q != w.quote || !ok {
			c.violate(fmt.Sprintf("token-%v", w.kind), fmt.Sprintf("token %d is %s instead of %v %q quote %q (dialect %s)", i, tokStr(g), w.kind, w.val, w.quote, d.name), src)
			return
		}
		if w.kind == sqltoken.SQLKeyword && w.quote == 0 {
			up := asciiUpper(w.val)
			if frozenKeywords[up] && g.Value.(*sqltoken.SQLWord).Keyword != up {
				c.violate("keyword", fmt.Sprintf("word %q is keyword %q instead of %q", w.val, g.Value.(*sqltoken.SQLWord).Keyword, up), src)
				return
			}
			if frozenKeywords[up] {
				c.add("keyword_tokens", 1)
			} else if kw := g.Value.(*sqltoken.SQLWord).Keyword; frozenKeywords[kw] {
				c.violate("keyword", fmt.Sprintf("word %q is taken for keyword %q", w.val, kw), src)
				return
			}
		}
	}
	if len(c.samples) < 4 && len(want) > 20 {
		c.sample(d.name + ": " + src)
	}
}

func asciiUpper(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 'a' + 'A'
		}
	}
	return string(b)
}

func p02(c *Ctx) {
	c.rule = lexRule
	c.lexTexts(20000, c.checkExtents)
}

// checkExtents compares the token positions with those of the reference lexer.
func (c *Ctx) checkExtents(src string, d *dial) {
	want, werr := lexRef(src, d)
	tz := sqltoken.NewTokenizer(strings.NewReader(src), d.d)
	c.eval(len(want) > 1, d.name, src)
	prev := pos{Line: 1, Col: 1}
	for i := 0; ; i++ {
		if p := tz.Pos(); p != prev {
			c.violate("pos", fmt.Sprintf("the tokenizer is at %v after a token that ends at %v", p, prev), src)
			return
		}
		t, err := tz.NextToken()
		if err == io.EOF || err != nil && werr != nil && i == len(want) {
			break
		}
		if err != nil || t == nil || i >= len(want) {
			return // P01 judges the tokens themselves
		}
		w := want[i]
		if t.Kind != w.kind {
			return
		}
		if t.From != prev || t.From != w.from || t.To != w.to {
			c.violate(fmt.Sprintf("extent-%v", w.kind), fmt.Sprintf("token %d %s should be %d:%d-%d:%d, previous end %d:%d (dialect %s)", i, tokStr(t), w.from.Line, w.from.Col, w.to.Line, w.to.Col, prev.Line, prev.Col, d.name), src)
			return
		}
		prev = t.To
		c.add("positions", 2)
		if w.to.Line > 1 {
			c.add("tokens_beyond_line_1", 1)
		}
	}
	// the tokens all at once carry the same positions
	all, err := sqltoken.NewTokenizer(strings.NewReader(src), d.d).Tokenize()
	if err == nil && werr == nil && len(all) == len(want) {
		for i, t := range all {
			if t.From != want[i].from || t.To != want[i].to {
				c.violate(fmt.Sprintf("extent-%v", want[i].kind), fmt.Sprintf("token %d %s should be at %v-%v", i, tokStr(t), want[i].from, want[i].to), src)
				return
			}
		}
	}
	if len(c.samples) < 4 && len(want) > 20 && strings.Contains(src, "\r") {
		c.sample(d.name + ": " + src)
	}
}

// ---- P03

func stepTokens(tz *sqltoken.Tokenizer, reuse bool) ([]*sqltoken.Token, error) {
	var out []*sqltoken.Token
	var tok sqltoken.Token
	for {
		var t *sqltoken.Token
		var err error
		if reuse {
			t, err = tz.Scan(&tok)
		} else {
			t, err = tz.NextToken()
		}
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return nil, err
		}
		if t == nil {
			continue
		}
		if reuse {
			if t != &tok {
				return nil, fmt.Errorf("Scan did not return the token it was given")
			}
			cp := *t
			t = &cp
		}
		out = append(out, t)
	}
}

// mixTokens takes some tokens one by one, in both ways, and the rest at once; at
// the end of the text there are no more.
func mixTokens(tz *sqltoken.Tokenizer, n int) ([]*sqltoken.Token, error) {
	var out []*sqltoken.Token
	var kept sqltoken.Token
	for k := n % 17; k > 0; k-- {
		var t *sqltoken.Token
		var err error
		if k%3 == 0 {
			t, err = tz.Scan(&kept)
		} else {
			t, err = tz.NextToken()
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		if t != nil {
			cp := *t
			out = append(out, &cp)
		}
	}
	rest, err := tz.Tokenize()
	if err != nil {
		return nil, err
	}
	for k := 0; k < 3; k++ {
		if t, err := tz.NextToken(); t != nil || err != io.EOF {
			return nil, fmt.Errorf("token %v, error %v behind the last token", t, err)
		}
	}
	if more, err := tz.Tokenize(); len(more) != 0 || err != nil {
		return nil, fmt.Errorf("%d more tokens, error %v behind the last token", len(more), err)
	}
	return append(out, rest...), nil
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func withoutSpace(l []*sqltoken.Token) []*sqltoken.Token {
	var out []*sqltoken.Token
	for _, t := range l {
		if t.Kind != sqltoken.Whitespace && t.Kind != sqltoken.Comment {
			out = append(out, t)
		}
	}
	return out
}

func parserFor(toks []*sqltoken.Token, opts ...xsqlparser.ParserOption) *xsqlparser.Parser {
	p := xsqlparser.NewParserWithOptions(opts...)
	p.SetTokens(toks)
	return p
}

func p03(c *Ctx) {
	c.rule = "the texts of P01 tokenized through 8 combinations of constructor, option order and stepping; generated scripts and their edits parsed from the text and from the tokens, with and without whitespace and comments, statements compared with positions; distinct by dialect and text, non-trivial if two or more tokens"
	check := func(src string, d *dial) {
		base, berr := sqltoken.NewTokenizer(strings.NewReader(src), d.d).Tokenize()
		c.eval(len(base) > 1, d.name, src)
		rd := func() io.Reader { return strings.NewReader(src) }
		dis, opt := sqltoken.DisableParseComment(), sqltoken.Dialect(d.d)
		type variant struct {
			name    string
			tz      *sqltoken.Tokenizer
			mode    int // 0 all, 1 step, 2 reuse, 3 mixed
			compact bool
		}
		vs := []variant{
			{"step", sqltoken.NewTokenizer(rd(), d.d), 1, false},
			{"reuse", sqltoken.NewTokenizer(rd(), d.d), 2, false},
			{"mixed", sqltoken.NewTokenizer(rd(), d.d), 3, false},
			{"nocomment-mixed", sqltoken.NewTokenizerWithOptions(rd(), opt, dis), 3, true},
			{"options", sqltoken.NewTokenizerWithOptions(rd(), opt), 0, false},
			{"options-step", sqltoken.NewTokenizerWithOptions(rd(), opt), 1, false},
			{"nocomment", sqltoken.NewTokenizerWithOptions(rd(), opt, dis), 0, true},
			{"nocomment-first", sqltoken.NewTokenizerWithOptions(rd(), dis, opt), 0, true},
			{"nocomment-step", sqltoken.NewTokenizerWithOptions(rd(), dis, opt), 1, true},
			{"nocomment-reuse", sqltoken.NewTokenizerWithOptions(rd(), opt, dis), 2, true},
		}
		if d.name == "generic" {
			vs = append(vs, variant{"default", sqltoken.NewTokenizerWithOptions(rd()), 0, false},
				variant{"default-nocomment", sqltoken.NewTokenizerWithOptions(rd(), dis), 0, true})
		}
		for _, v := range vs {
			var got []*sqltoken.Token
			var err error
			switch v.mode {
			case 0:
				got, err = v.tz.Tokenize()
			case 1:
				got, err = stepTokens(v.tz, false)
			case 2:
				got, err = stepTokens(v.tz, true)
			default:
				got, err = mixTokens(v.tz, len(src))
			}
			if errText(err) != errText(berr) {
				c.violate("err-"+v.name, fmt.Sprintf("%s: error %q instead of %q", v.name, errText(err), errText(berr)), src)
				return
			}
			if berr != nil {
				if v.mode == 0 && got != nil {
					c.violate("tokens-with-error", v.name+": tokens returned along with an error", src)
				}
				continue
			}
			want := base
			if v.compact {
				want = withoutSpace(base)
			}
			if df := diffTokens(got, want); df != "" {
				c.violate("tok-"+v.name, fmt.Sprintf("%s differs from Tokenize: %s (dialect %s)", v.name, df, d.name), src)
				return
			}
			c.add("variants_compared", 1)
		}
	}
	c.lexTexts(4000, check)
	parse := func(src string, d *dial) {
		toks, err := sqltoken.NewTokenizer(strings.NewReader(src), d.d).Tokenize()
		c.eval(len(toks) > 1, "parse", d.name, src)
		want, werr := parseSQL(src, d)
		if err != nil {
			if werr == nil {
				c.violate("parser-tokenize", "the text cannot be tokenized but is parsed", src)
			}
			return
		}
		compact := withoutSpace(toks)
		type way struct {
			name string
			run  func() ([]a.Stmt, error)
		}
		ways := []way{
			{"tokens", func() ([]a.Stmt, error) { return parserFor(toks).ParseSQL() }},
			{"tokens without space", func() ([]a.Stmt, error) { return parserFor(compact).ParseSQL() }},
			{"tokens, comments on", func() ([]a.Stmt, error) { return parserFor(toks, xsqlparser.ParseComment()).ParseSQL() }},
			{"tokens without space, comments on", func() ([]a.Stmt, error) { return parserFor(compact, xsqlparser.ParseComment()).ParseSQL() }},
			{"file of tokens", func() ([]a.Stmt, error) { return fileStmts(parserFor(toks).ParseFile()) }},
			{"file of text", func() ([]a.Stmt, error) { return fileStmts(parseFile(src, d, false)) }},
			{"compact tokenizer", func() ([]a.Stmt, error) {
				l, err := sqltoken.NewTokenizerWithOptions(strings.NewReader(src), sqltoken.Dialect(d.d), sqltoken.DisableParseComment()).Tokenize()
				if err != nil {
					return nil, err
				}
				return parserFor(l).ParseSQL()
			}},
		}
		for _, w := range ways {
			got, err := w.run()
			if (err == nil) != (werr == nil) {
				c.violate("parse-"+w.name, fmt.Sprintf("%s: %v, from the text: %v", w.name, err, werr), src)
				return
			}
			if err != nil {
				continue
			}
			if len(got) != len(want) {
				c.violate("parse-"+w.name, fmt.Sprintf("%s: %d statements instead of %d", w.name, len(got), len(want)), src)
				return
			}
			for i := range got {
				if df := diffTrees(got[i], want[i], true); df != "" {
					c.violate("parse-"+w.name, fmt.Sprintf("%s: statement %d differs: %s", w.name, i, df), src)
					return
				}
			}
			c.add("parses_compared", 1)
		}
		// comments from tokens equal those from the text
		f1, e1 := parseFile(src, d, true)
		f2, e2 := parserFor(toks, xsqlparser.ParseComment()).ParseFile()
		if (e1 == nil) != (e2 == nil) || e1 == nil && diffComments(f1, f2) != "" {
			c.violate("parse-comments", "comments from tokens differ from those of the text", src)
		}
	}
	c.cases("parse", c.count(5000), func(i int, r *rand.Rand) {
		s, d := scriptText(r, i)
		parse(s, d)
		parse(editText(s, r), d)
		if i%999 == 1 {
			c.sample(s)
		}
	})
}

func fileStmts(f *a.File, err error) ([]a.Stmt, error) {
	if err != nil {
		return nil, err
	}
	return f.Stmts, nil
}

func commentList(f *a.File) string {
	var b strings.Builder
	for _, g := range f.Comments {
		for _, x := range g.List {
			fmt.Fprintf(&b, "%v-%v %q ", x.Pos(), x.End(), x.Text)
		}
		b.WriteString("| ")
	}
	return b.String()
}

func diffComments(x, y *a.File) string {
	cx, cy := commentList(x), commentList(y)
	if cx != cy {
		return cx + "\n" + cy
	}
	return ""
}

// ---- P04

var errBoom = errors.New("boom")

// faultReader delivers data in the given chunk sizes and then err.
type faultReader struct {
	data   string
	chunks func() int // 0: an empty read
	err    error
	with   bool // deliver err together with the last bytes
	after  string
	failed bool
	reads  int
}

func (f *faultReader) Read(p []byte) (int, error) {
	f.reads++
	if f.failed {
		// a reader that recovers after its fault
		if len(f.after) > 0 {
			n := copy(p, f.after)
			f.after = f.after[n:]
			return n, nil
		}
		return 0, io.EOF
	}
	if len(f.data) == 0 {
		f.failed = true
		return 0, f.err
	}
	n := f.chunks()
	if n > len(p) {
		n = len(p)
	}
	if n > len(f.data) {
		n = len(f.data)
	}
	n = copy(p, f.data[:n])
	f.data = f.data[n:]
	if f.with && len(f.data) == 0 && n > 0 {
		f.failed = true
		return n, f.err
	}
	return n, nil
}

func chunker(mode int, r *rand.Rand) func() int {
	k := 0
	switch mode {
	case 0:
		return func() int { return 1 << 20 }
	case 1:
		return func() int { return 1 }
	case 2:
		return func() int { return 1 + r.Intn(7) }
	case 3: // empty reads in between, never more than 3 in a row
		return func() int {
			if k < 3 && r.Intn(2) == 0 {
				k++
				return 0
			}
			k = 0
			return 1 + r.Intn(5)
		}
	case 4:
		return func() int { return 1023 + r.Intn(3) }
	case 6: // a reader that is waiting for its data
		return func() int {
			if k--; k > 0 {
				return 0
			}
			k = r.Intn(90) // bufio gives up after 100
			return 1 + r.Intn(60)
		}
	}
	return func() int { return 1 + r.Intn(600) }
}

// ioErrors are what readers and writers fail with.
var ioErrors = []error{
	errBoom, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortWrite, io.ErrShortBuffer, os.ErrDeadlineExceeded, os.ErrClosed,
	syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, syscall.ENOSPC, context.Canceled, context.DeadlineExceeded, bufio.ErrBufferFull,
	&os.PathError{Op: "read", Path: "x.sql", Err: syscall.EIO}, utf8Err{}, multiErr{io.EOF, errBoom},
}

// utf8Err is a temporary error of a comparable type without a pointer.
type utf8Err struct{}

func (utf8Err) Error() string   { return "EOF" }
func (utf8Err) Temporary() bool { return true }
func (utf8Err) Timeout() bool   { return true }

// multiErr stands for several errors, one of them the end of the input.
type multiErr [2]error

func (m multiErr) Error() string { return fmt.Sprint(m[0], m[1]) }
func (m multiErr) Is(t error) bool {
	return t == error(m) || t == m[0] || t == m[1]
}

type causeErr struct{ n int }

func (e *causeErr) Error() string { return fmt.Sprintf("cause %d", e.n) }

func p04(c *Ctx) {
	c.rule = "generated scripts with comments, and damaged texts: every byte offset (texts above 600 bytes: 120 offsets, all those near buffer limits included) x error kind (22, some of which wrap the end of input) x delivery with or after the last bytes x what follows the fault -> Tokenize, stepping, NewParser and its callers must fail with that cause; and 7 ways of chunking x end-of-input alone or with the data -> same tokens, statements, comments; distinct by text, offset and delivery, non-trivial if the offset is inside the text"
	fault := func(src string, d *dial, k int, mode int, kind int, with bool, after string, r *rand.Rand) {
		var cause error
		switch kind {
		case 2:
			cause = &causeErr{k}
		case 3:
			cause = fmt.Errorf("wrapped: %w", errBoom)
		case 4:
			cause = fmt.Errorf("the connection ended: %w", io.EOF) // no end of input, for it is not io.EOF
		default:
			cause = ioErrors[(kind+k)%len(ioErrors)]
		}
		mk := func() *faultReader {
			return &faultReader{data: src[:k], chunks: chunker(mode, r), err: cause, with: with, after: after}
		}
		where := fmt.Sprintf("fault after %d of %d bytes (with data: %v, chunking %d, error %v, %d bytes follow)", k, len(src), with, mode, cause, len(after))
		whole := src[:k]
		for !utf8.ValidString(whole) {
			whole = whole[:len(whole)-1] // without the beginning of a character
		}
		if _, err := lexRef(whole, d); err != nil && isLone(err) {
			c.add("faults_behind_a_lexical_error", 1)
			return // the text is wrong before the fault is reached
		}
		c.eval(k > 0 && k < len(src), src, k, kind, with, after != "")
		bad := func(what string, err error) {
			if err == nil {
				c.violate(what+"-noerror", what+" succeeds: "+where, src)
			} else if !errors.Is(err, cause) {
				c.violate(what+"-cause", fmt.Sprintf("%s fails without the cause: %v: %s", what, err, where), src)
			}
		}
		toks, err := sqltoken.NewTokenizer(mk(), d.d).Tokenize()
		bad("Tokenize", err)
		if toks != nil {
			c.violate("Tokenize-result", "tokens along with the error: "+where, src)
		}
		_, err = sqltoken.NewTokenizerWithOptions(mk(), sqltoken.DisableParseComment(), sqltoken.Dialect(d.d)).Tokenize()
		bad("compact Tokenize", err)
		_, err = stepTokens(sqltoken.NewTokenizer(mk(), d.d), false)
		bad("NextToken", err)
		_, err = stepTokens(sqltoken.NewTokenizer(mk(), d.d), true)
		bad("Scan", err)
		p, err := xsqlparser.NewParser(mk(), d.d)
		bad("NewParser", err)
		if p != nil {
			c.violate("NewParser-result", "a parser along with the error: "+where, src)
		}
		p, err = xsqlparser.NewParser(mk(), d.d, xsqlparser.ParseComment())
		bad("NewParser with comments", err)
		if p != nil {
			c.violate("NewParser-result", "a parser along with the error: "+where, src)
		}
		c.add("faults_injected", 6)
	}
	c.cases("faults", c.count(260), func(i int, r *rand.Rand) {
		var src string
		d := dials[i%3]
		switch i % 5 {
		case 0:
			src = soup(r)
		case 1:
			src, d = longText(r, i, 1100+r.Intn(2500))
		case 2:
			src, d = scriptText(r, i)
			src = editText(src, r)
		default:
			src, d = scriptText(r, i)
		}
		ks := map[int]bool{}
		if len(src) <= 600 {
			for k := 0; k <= len(src); k++ {
				ks[k] = true
			}
		} else {
			for _, b := range []int{0, 1, 2, len(src) - 1, len(src), 1022, 1023, 1024, 1025, 1026, 2046, 2047, 2048, 2049} {
				if b <= len(src) {
					ks[b] = true
				}
			}
			for len(ks) < 120 {
				ks[r.Intn(len(src)+1)] = true
			}
		}
		for k := 0; k <= len(src); k++ {
			if !ks[k] {
				continue
			}
			mode, kind, with := (k+i)%6, (k/2+i)%7, (k+i/2)%2 == 0
			after := ""
			if (k+i)%3 == 0 {
				after = src[k:]
			}
			fault(src, d, k, mode, kind, with, after, r)
		}
	})
	c.cases("chunks", c.count(2500), func(i int, r *rand.Rand) {
		var src string
		d := dials[i%3]
		switch i % 6 {
		case 0:
			src = soup(r)
		case 1:
			src, d = longText(r, i, 1000+r.Intn(5000))
		case 2:
			src, d = scriptText(r, i)
			src = editText(src, r)
		default:
			src, d = scriptText(r, i)
		}
		want, werr := sqltoken.NewTokenizer(strings.NewReader(src), d.d).Tokenize()
		wf, wferr := parseFile(src, d, true)
		for mode := 0; mode < 7; mode++ {
			for _, with := range []bool{false, true} {
				mk := func() io.Reader { return &faultReader{data: src, chunks: chunker(mode, r), err: io.EOF, with: with} }
				got, err := sqltoken.NewTokenizer(mk(), d.d).Tokenize()
				c.eval(len(src) > 3, src, mode, with)
				c.add("chunkings", 1)
				if errText(err) != errText(werr) {
					c.violate("chunk-error", fmt.Sprintf("chunking %d (eof with data: %v) changes the error: %v, %v", mode, with, err, werr), src)
					return
				}
				if df := diffTokens(got, want); df != "" {
					c.violate("chunk-tokens", fmt.Sprintf("chunking %d (eof with data: %v) changes the tokens: %s", mode, with, df), src)
					return
				}
				var f *a.File
				p, err := xsqlparser.NewParser(mk(), d.d, xsqlparser.ParseComment())
				if err == nil {
					f, err = p.ParseFile()
				}
				if errText(err) != errText(wferr) {
					c.violate("chunk-parse-error", fmt.Sprintf("chunking %d changes the error: %v, %v", mode, err, wferr), src)
					return
				}
				if err != nil {
					continue
				}
				if len(f.Stmts) != len(wf.Stmts) || diffComments(f, wf) != "" {
					c.violate("chunk-file", fmt.Sprintf("chunking %d changes the number of statements or the comments", mode), src)
					return
				}
				for k := range f.Stmts {
					if df := diffTrees(f.Stmts[k], wf.Stmts[k], true); df != "" {
						c.violate("chunk-file", fmt.Sprintf("chunking %d changes statement %d: %s", mode, k, df), src)
						return
					}
				}
			}
		}
		if i%499 == 2 {
			c.sample(src)
		}
	})
}

// isLone tells whether a '!' that something else than '=' follows is the error.
func isLone(err error) bool {
	l, ok := err.(*loneErr)
	return ok && !l.last
}
