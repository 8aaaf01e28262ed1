package main

// Reference lexer, written from the description of the lexical rules and
// independent of the tokenizer under test.

import (
	"errors"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/akito0107/xsqlparser/sqltoken"
)

type pos = sqltoken.Pos

type rtok struct {
	kind       sqltoken.Kind
	val        string // decoded text; for words without quotes
	quote      rune   // words: quote style
	from, to   pos
	start, end int // rune offsets
}

func (t rtok) isSpace() bool {
	return t.kind == sqltoken.Whitespace || t.kind == sqltoken.Comment
}

type cursor struct {
	p pos
}

// advance moves over one character (n is the character after it).
func advance(p pos, r, n rune, between bool) pos {
	switch {
	case r == '\r' && n == '\n':
		return p
	case r == '\r' || r == '\n':
		return pos{Line: p.Line + 1, Col: 1}
	case r == '\t' && between:
		return pos{Line: p.Line, Col: p.Col + 4}
	}
	return pos{Line: p.Line, Col: p.Col + 1}
}

var lexOps = []struct {
	s string
	k sqltoken.Kind
}{
	{"!=", sqltoken.Neq}, {"<>", sqltoken.Neq}, {"<=", sqltoken.LtEq}, {">=", sqltoken.GtEq}, {"::", sqltoken.DoubleColon},
	{"=", sqltoken.Eq}, {"<", sqltoken.Lt}, {">", sqltoken.Gt}, {"+", sqltoken.Plus}, {"-", sqltoken.Minus}, {"*", sqltoken.Mult},
	{"/", sqltoken.Div}, {"%", sqltoken.Mod}, {"(", sqltoken.LParen}, {")", sqltoken.RParen}, {",", sqltoken.Comma}, {".", sqltoken.Period},
	{":", sqltoken.Colon}, {";", sqltoken.Semicolon}, {"\\", sqltoken.Backslash}, {"[", sqltoken.LBracket}, {"]", sqltoken.RBracket},
	{"&", sqltoken.Ampersand}, {"{", sqltoken.LBrace}, {"}", sqltoken.RBrace},
}

// lexRef returns the tokens of src, or an error for an unclosed element or a
// lone '!'. With the error come the tokens before it.
func lexRef(src string, d *dial) ([]rtok, error) {
	if !utf8.ValidString(src) {
		return nil, errors.New("not UTF-8")
	}
	if len(src) >= 3 && src[:3] == "\xef\xbb\xbf" {
		src = src[3:] // byte order mark
	}
	rs := []rune(src)
	at := func(i int) rune {
		if i < len(rs) {
			return rs[i]
		}
		return -1
	}
	has := func(i int, s string) bool {
		for k, c := range []rune(s) {
			if at(i+k) != c {
				return false
			}
		}
		return true
	}
	var toks []rtok
	p := pos{Line: 1, Col: 1}
	for i := 0; i < len(rs); {
		t := rtok{from: p, start: i}
		c := rs[i]
		j := i + 1
		between := false
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			t.kind, between = sqltoken.Whitespace, true
			t.val = string(c)
			if c == '\r' {
				t.val = "\n"
				if at(j) == '\n' {
					j++
				}
			}
		case has(i, "--"):
			t.kind = sqltoken.Comment
			for j < len(rs) && rs[j] != '\n' && rs[j] != '\r' {
				j++
			}
			t.val = string(rs[i+2 : j])
		case has(i, "/*"):
			t.kind = sqltoken.Comment
			j = i + 2
			for j < len(rs) && !has(j, "*/") {
				j++
			}
			if j >= len(rs) {
				return toks, fmt.Errorf("unclosed comment at %v", p)
			}
			t.val = string(rs[i+2 : j])
			j += 2
		case c == '\'' || c == 'N' && at(j) == '\'':
			t.kind = sqltoken.SingleQuotedString
			if c == 'N' {
				t.kind = sqltoken.NationalStringLiteral
				j++
			}
			var b strings.Builder
			for {
				if j >= len(rs) {
					return toks, fmt.Errorf("unclosed string at %v", p)
				}
				if rs[j] == '\'' {
					if at(j+1) != '\'' {
						j++
						break
					}
					j++
				}
				b.WriteRune(rs[j])
				j++
			}
			t.val = b.String()
		case d.quoted(c):
			t.kind, t.quote = sqltoken.SQLKeyword, c
			for j < len(rs) && rs[j] != closing(c) {
				j++
			}
			if j >= len(rs) {
				return toks, fmt.Errorf("unclosed delimited identifier at %v", p)
			}
			t.val = string(rs[i+1 : j])
			j++
		case d.start(c):
			t.kind = sqltoken.SQLKeyword
			for j < len(rs) && d.part(rs[j]) {
				j++
			}
			t.val = string(rs[i:j])
		case digit(c):
			t.kind = sqltoken.Number
			for j < len(rs) && (digit(rs[j]) || rs[j] == '.') {
				j++
			}
			t.val = string(rs[i:j])
		default:
			t.kind, t.val = sqltoken.Char, string(c)
			for _, o := range lexOps {
				if has(i, o.s) {
					t.kind, t.val = o.k, o.s
					j = i + len(o.s)
					break
				}
			}
			if c == '!' && t.kind == sqltoken.Char {
				return toks, &loneErr{p, i+1 == len(rs)}
			}
		}
		for k := i; k < j; k++ {
			p = advance(p, rs[k], at(k+1), between)
		}
		if j < len(rs) && at(j-1) == '\r' && at(j) == '\n' {
			// a line comment or other token never ends between \r and \n, except
			// a quoted token whose last character is the quote: cannot happen
			panic("lexRef: split CRLF")
		}
		t.to, t.end = p, j
		toks = append(toks, t)
		i = j
	}
	return toks, nil
}

// needSep tells whether x and y, written without anything between them, would
// not be read as these two tokens.
func needSep(x, y string, d *dial) bool {
	toks, err := lexRef(x+y, d)
	n := len([]rune(x))
	return err != nil || len(toks) != 2 || toks[0].end != n
}

type loneErr struct {
	p    pos
	last bool // nothing follows the '!'
}

func (e *loneErr) Error() string { return fmt.Sprintf("lone ! at %v", e.p) }
