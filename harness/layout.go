package main

// Layouter: turns items into text with chosen whitespace, comments and keyword
// case, and computes the line and column of every item from the text rules.

import (
	"math/rand"
	"strings"
)

type comment struct {
	text     string // without delimiters
	from, to pos
	gap      int // index of the item it precedes
}

type laid struct {
	text     string
	from, to []pos // per item
	comments []comment
	groups   [][]int // indices into comments
	end      pos
}

type gapStyle struct {
	space    float64 // probability of optional space where none is needed
	newline  float64 // probability of a line end instead of a blank
	tab      float64
	comments float64 // probability of comments in a gap
	spikes   float64 // probability of a very long gap
	far      int     // number of line ends or blanks still to be put into some gap at once
	kwCase   int     // 0 upper, 1 lower, 2 mixed, 3 as random per keyword
}

var (
	plainStyle = gapStyle{space: 1}
	tightStyle = gapStyle{}
)

func wildStyle(r *rand.Rand) gapStyle {
	s := gapStyle{space: 0.5, newline: 0.25, tab: 0.1, kwCase: r.Intn(4)}
	switch r.Intn(4) {
	case 0:
		s.newline = 0
	case 1:
		s.newline = 0.6
	}
	if r.Intn(40) == 0 {
		s.spikes = 0.05
	}
	if r.Intn(150) == 0 {
		s.far = size(r, 100001)
	}
	return s
}

func commentStyle(r *rand.Rand) gapStyle {
	s := wildStyle(r)
	s.comments = []float64{0.05, 0.2, 0.5}[r.Intn(3)]
	return s
}

func caseKeyword(w string, mode int, r *rand.Rand) string {
	if mode == 3 {
		mode = r.Intn(3)
	}
	switch mode {
	case 1:
		return strings.ToLower(w)
	case 2:
		b := []byte(w)
		for i, c := range b {
			if r.Intn(2) == 0 {
				b[i] = byte(strings.ToLower(string(rune(c)))[0])
			}
		}
		return string(b)
	}
	return w
}

var commentWords = []string{"", " ", "c", " note ", "TODO: x", "select 1", "'", "\"", "`", "--", "- -", "*", "**", "* /", "/", "/*", ";", "é世😀", "a\tb", ")", "(", "it's", "x=1; drop table t", "\\", "!", "\t", " \t", "\u00a0", "\u3000", "\v", "\u2028", "\u0085"}

func (g *gapStyle) lineEnd(r *rand.Rand) string {
	return []string{"\n", "\n", "\n", "\r\n", "\r"}[r.Intn(5)]
}

type gapPiece struct {
	text      string
	isComment bool
	block     bool
	inner     string
}

func (g *gapStyle) ws(r *rand.Rand) string {
	switch {
	case r.Float64() < g.newline:
		return g.lineEnd(r)
	case r.Float64() < g.tab:
		return "\t"
	}
	return " "
}

func blockText(r *rand.Rand) string {
	for {
		var b strings.Builder
		for n := r.Intn(3); n >= 0; n-- {
			b.WriteString(commentWord(r))
			if r.Intn(4) == 0 {
				b.WriteString([]string{"\n", "\r\n", "\r", "\n\n", " * \n"}[r.Intn(5)])
			}
		}
		s := b.String()
		if !strings.Contains(s+"*/", "*/") || strings.Index(s+"*/", "*/") == len(s) {
			return s
		}
	}
}

func lineText(r *rand.Rand) string {
	var b strings.Builder
	for n := r.Intn(3); n >= 0; n-- {
		b.WriteString(commentWord(r))
	}
	return b.String()
}

func commentWord(r *rand.Rand) string {
	if r.Intn(10) == 0 {
		return string(oddRune(r))
	}
	return commentWords[r.Intn(len(commentWords))]
}

// gap builds what stands between two items (prev or next empty at the ends).
func (g *gapStyle) gap(r *rand.Rand, prev, next string, d *dial) []gapPiece {
	var ps []gapPiece
	sp := func() {
		s := g.ws(r)
		// \r followed by \n would be one line end; keep the pieces apart
		if s == "\n" && len(ps) > 0 && strings.HasSuffix(ps[len(ps)-1].text, "\r") {
			s = " "
		}
		ps = append(ps, gapPiece{text: s})
	}
	if g.far > 0 && r.Intn(4) == 0 {
		ps = append(ps, gapPiece{text: strings.Repeat([]string{"\n", "\n", " ", "\t", "\r", "\r\n"}[r.Intn(6)], g.far)})
		if g.comments > 0 && r.Intn(2) == 0 {
			ps = append(ps, gapPiece{text: "/*x*/", isComment: true, block: true, inner: "x"})
		}
		g.far = 0
		return ps
	}
	need := prev != "" && next != "" && needSep(prev, next, d)
	if g.spikes > 0 && r.Float64() < g.spikes {
		// a long run of blanks, line ends or comments, or one long comment
		sp()
		n, kind := size(r, 5000), 0
		if g.comments > 0 {
			kind = r.Intn(4)
		}
		switch kind {
		case 0:
			for k := 0; k < n; k++ {
				sp()
			}
		case 1:
			t := strings.Repeat("c", n)
			ps = append(ps, gapPiece{text: "/*" + t + "*/", isComment: true, block: true, inner: t})
		case 2:
			t := strings.Repeat("é", n)
			ps = append(ps, gapPiece{text: "--" + t, isComment: true, inner: t}, gapPiece{text: g.lineEnd(r)})
		default:
			for k := 0; k < n/16; k++ {
				t := blockText(r)
				ps = append(ps, gapPiece{text: "/*" + t + "*/", isComment: true, block: true, inner: t})
				sp()
			}
		}
		return ps
	}
	if r.Float64() < g.comments {
		n := 1
		for n < 4 && r.Intn(3) == 0 {
			n++
		}
		// a comment right behind '-' or '/' would be read differently
		if prev != "" && (prev == "-" || prev == "/" || r.Intn(3) > 0) {
			sp()
		}
		for i := 0; i < n; i++ {
			for r.Intn(3) == 0 {
				sp()
			}
			if r.Intn(2) == 0 {
				t := blockText(r)
				ps = append(ps, gapPiece{text: "/*" + t + "*/", isComment: true, block: true, inner: t})
			} else {
				t := lineText(r)
				ps = append(ps, gapPiece{text: "--" + t, isComment: true, inner: t})
				if !(next == "" && i == n-1 && r.Intn(3) == 0) {
					ps = append(ps, gapPiece{text: g.lineEnd(r)})
				}
			}
		}
		for len(ps) > 0 && ps[len(ps)-1].text != "" && !(ps[len(ps)-1].isComment && !ps[len(ps)-1].block) && r.Intn(3) == 0 {
			sp()
		}
		return ps
	}
	if prev == "" || next == "" {
		if g.space < 1 || g.newline > 0 {
			for r.Intn(3) == 0 {
				sp()
			}
		}
		return ps
	}
	if need || r.Float64() < g.space {
		sp()
		if g.newline > 0 {
			for r.Intn(6) == 0 {
				sp()
			}
		}
	}
	return ps
}

// layout writes the items with the given style.
func layout(items []item, d *dial, g gapStyle, r *rand.Rand) *laid {
	return layoutGaps(items, g.kwCase, r, func(i int, prev, next string) []gapPiece { return g.gap(r, prev, next, d) })
}

// layoutGaps writes the items with the given gaps; gap i precedes item i.
func layoutGaps(items []item, kwCase int, r *rand.Rand, gap func(i int, prev, next string) []gapPiece) *laid {
	l := &laid{from: make([]pos, len(items)), to: make([]pos, len(items))}
	var b strings.Builder
	p := pos{Line: 1, Col: 1}
	put := func(s string, between bool) {
		rs := []rune(s)
		for i, c := range rs {
			n := rune(-1)
			if i+1 < len(rs) {
				n = rs[i+1]
			}
			p = advance(p, c, n, between)
		}
		b.WriteString(s)
	}
	prev := ""
	codeOnLine := false // code stands before p on the current line
	var group []int
	closeGroup := func() {
		if len(group) > 0 {
			l.groups = append(l.groups, group)
			group = nil
		}
	}
	for i := 0; i <= len(items); i++ {
		next := ""
		if i < len(items) {
			next = items[i].text
			if items[i].kind == iKeyword {
				next = caseKeyword(next, kwCase, r)
			}
		}
		for _, pc := range gap(i, prev, next) {
			from := p
			put(pc.text, !pc.isComment)
			if pc.isComment {
				l.comments = append(l.comments, comment{text: pc.inner, from: from, to: p, gap: i})
				group = append(group, len(l.comments)-1)
				if p.Line != from.Line {
					codeOnLine = false
				}
			} else if p.Line != from.Line {
				if codeOnLine {
					closeGroup()
				}
				codeOnLine = false
			}
		}
		if i < len(items) {
			closeGroup()
			l.from[i] = p
			put(next, false)
			l.to[i] = p
			codeOnLine = true
			prev = next
		}
	}
	closeGroup()
	l.text, l.end = b.String(), p
	return l
}
