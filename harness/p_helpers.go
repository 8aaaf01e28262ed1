package main

// P28: constructors, values and comparison helpers. Constructed nodes are
// judged against parsed ones, values against what was put in, comparisons
// against an own comparison of the trees.

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/akito0107/xsqlparser"
	a "github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// scalars lists the settable plain values below v.
func scalars(v reflect.Value, path string, out *[]reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			scalars(v.Elem(), path, out)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scalars(v.Index(i), path, out)
		}
		if v.Len() > 0 && v.CanSet() {
			*out = append(*out, v)
		}
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if exported(v.Type().Field(i)) {
				scalars(v.Field(i), path, out)
			}
		}
	default:
		if v.CanSet() {
			*out = append(*out, v)
		}
	}
}

// alter changes one plain value or list.
func alter(v reflect.Value, r *rand.Rand) string {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int64:
		v.SetInt(v.Int() + []int64{1, -1, 256, 1 << 31}[r.Intn(4)])
	case reflect.Uint, reflect.Uint64:
		v.SetUint(v.Uint() + 1)
	case reflect.Float64:
		v.SetFloat(math.Nextafter(v.Float(), math.Inf(1)))
	case reflect.String:
		s := v.String()
		switch r.Intn(3) {
		case 0:
			v.SetString(s + " ")
		case 1:
			v.SetString("x" + s)
		default:
			if s == "" || strings.ToUpper(s) == s {
				v.SetString(s + "'")
			} else {
				v.SetString(strings.ToUpper(s))
			}
		}
	case reflect.Slice:
		v.Set(v.Slice(0, v.Len()-1))
		return "list"
	default:
		return ""
	}
	return v.Kind().String()
}

func (c *Ctx) sameNode(what string, built a.Node, text string, parsed a.Node, err error) {
	if err != nil {
		c.violate(what, fmt.Sprintf("the written form is rejected: %v", err), text)
		return
	}
	if df := diffTrees(built, parsed, false); df != "" {
		c.violate(what, fmt.Sprintf("the constructed node is not the parsed one: %s", df), text)
		return
	}
	if got := built.ToSQLString(); got != parsed.ToSQLString() {
		c.violate(what+"-print", fmt.Sprintf("the constructed node prints as %q, the parsed one as %q", got, parsed.ToSQLString()), text)
	}
	c.add("constructed", 1)
}

func (c *Ctx) valueIs(n a.Node, want interface{}) {
	v, ok := n.(a.Value)
	if !ok {
		c.violate("value:"+typeName(n), "a literal has no value", n.ToSQLString())
		return
	}
	got := v.Value()
	same := reflect.DeepEqual(got, want)
	if t, ok := want.(time.Time); ok {
		g, isTime := got.(time.Time)
		same = isTime && g.Equal(t)
	}
	if !same {
		c.violate("value:"+typeName(n), fmt.Sprintf("the value of the literal is %#v (%T) instead of %#v", got, got, want), n.ToSQLString())
	}
	c.add("values", 1)
}

// joinIdents spells a name of several parts.
func joinIdents(n *a.ObjectName) string {
	var parts []string
	for _, id := range n.Idents {
		parts = append(parts, id.Value)
	}
	return strings.Join(parts, ".")
}

// listDepth is the greatest number of lists inside of one another.
func listDepth(v reflect.Value) int {
	n := 0
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			n = listDepth(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if k := listDepth(v.Field(i)); k > n {
				n = k
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if k := listDepth(v.Index(i)); k > n {
				n = k
			}
		}
		n++
	}
	return n
}

func p28(c *Ctx) {
	c.rule = "random names, sizes and values -> constructed nodes against the parsed ones, values of literals against what they spell; generated trees against copies with one plain value, list or position altered -> CompareWithoutMarker reports a difference exactly if there is one; random and extreme positions -> order; all kinds, operators and formats -> distinct names that map back; distinct by input, non-trivial if not empty"
	c.cases("literals", c.count(6000), func(i int, r *rand.Rand) {
		d := dials[i%3]
		g := newG(r, d, 5)
		lit := func(n a.Node, text string, v interface{}) {
			c.eval(true, text)
			got, err := parseExpr(text, d)
			c.sameNode("new"+typeName(n), n, text, got, err)
			c.valueIs(n, v)
			if err == nil && reflect.TypeOf(got) == reflect.TypeOf(n) {
				c.valueIs(got, v)
			}
		}
		v := g.long()
		lit(a.NewLongValue(v), strconv.FormatInt(v, 10), v)
		f := g.double()
		text := strconv.FormatFloat(f, 'f', -1, 64)
		if !strings.Contains(text, ".") {
			text += ".0"
		}
		lit(a.NewDoubleValue(f), text, f)
		s := g.weirdText(20, 0)
		lit(a.NewSingleQuotedString(s), quoteStr(s), s)
		lit(a.NewNationalStringLiteral(s), "N"+quoteStr(s), s)
		b := r.Intn(2) == 0
		lit(a.NewBooleanValue(b), strconv.FormatBool(b), b)
		lit(a.NewNullValue(), "NULL", nil)
	})
	c.cases("names", c.count(6000), func(i int, r *rand.Rand) {
		d := dials[i%3]
		g := newG(r, d, 5)
		var parts []string
		for k := 1 + r.Intn(5); k > 0; k-- {
			parts = append(parts, g.name())
		}
		text := strings.Join(parts, ".")
		c.eval(true, text)
		given := append([]string{}, parts...)
		built := a.NewObjectName(given...)
		given[0] = "overwritten"
		st, err := parseSQL("DROP TABLE "+text, d)
		var got a.Node
		if err == nil {
			got = st[0].(*a.DropTableStmt).TableNames[0]
		}
		c.sameNode("NewObjectName", built, text, got, err)
		e, err := parseExpr(parts[0], d)
		c.sameNode("NewIdent", a.NewIdent(parts[0]), parts[0], e, err)
		if err == nil {
			from, to := e.Pos(), e.End()
			if x := a.NewIdentWithPos(parts[0], from, to); diffTrees(x, e, true) != "" || x.Pos() != from || x.End() != to {
				c.violate("NewIdentWithPos", diffTrees(x, e, true), parts[0])
			}
		}
		n := uint(r.Uint64() >> uint(1+r.Intn(62)))
		text = fmt.Sprintf("VARCHAR(%d)", n)
		ty, err := parseType(text, d)
		p, q := a.NewSize(n), a.NewSize(n)
		if p == q || *p != n {
			c.violate("NewSize", "sizes are shared or wrong", text)
		}
		*q = 0
		var tn a.Node
		if err == nil {
			tn = ty
		}
		c.sameNode("NewSize", &a.VarcharType{Size: p}, text, tn, err)
	})
	c.cases("times", c.count(3000), func(i int, r *rand.Rand) {
		t := time.Date(1+r.Intn(9999), time.Month(1+r.Intn(12)), 1+r.Intn(31), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(2)*r.Intn(1e9), []*time.Location{time.UTC, time.FixedZone("x", 3600*(r.Intn(24)-12))}[r.Intn(2)])
		if t.Year() > 9999 {
			return
		}
		day := fmt.Sprintf("%04d-%02d-%02d", t.Year(), int(t.Month()), t.Day())
		clock := fmt.Sprintf("%02d:%02d:%02d", t.Hour(), t.Minute(), t.Second())
		for _, x := range []struct {
			n    a.Node
			want string
		}{{a.NewTimeValue(t), clock}, {&a.DateValue{Date: t}, day}, {a.NewDateTimeValue(t), day + " " + clock}, {a.NewTimestampValue(t), day + " " + clock}} {
			c.eval(true, typeName(x.n), t.String())
			c.valueIs(x.n, t)
			var b strings.Builder
			n, err := x.n.WriteTo(&b)
			if b.String() != x.want || x.n.ToSQLString() != x.want || err != nil || int(n) != b.Len() {
				c.violate("print:"+typeName(x.n), fmt.Sprintf("%v prints as %q and is written as %q (%d, %v)", t, x.n.ToSQLString(), b.String(), n, err), x.want)
			}
		}
	})
	c.cases("built", c.count(4000), func(i int, r *rand.Rand) {
		// nodes that no text parses to
		g := newG(r, dials[i%3], 6)
		name, cols := g.objName(), g.idents(5)
		size := uint(r.Uint64() >> uint(1+r.Intn(62)))
		is := func(n a.Node, text string) {
			c.eval(true, text)
			fold := func(s string) string { return strings.ToLower(strings.Join(strings.Fields(s), " ")) }
			if fold(n.ToSQLString()) != fold(text) {
				c.violate("built:"+typeName(n), fmt.Sprintf("prints as %q", n.ToSQLString()), text)
			}
			c.add("built", 1)
		}
		is(&a.Clob{Size: size}, fmt.Sprintf("clob(%d)", size))
		is(&a.Blob{Size: size}, fmt.Sprintf("blob(%d)", size))
		is(&a.Binary{Size: size}, fmt.Sprintf("binary(%d)", size))
		is(&a.Varbinary{Size: size}, fmt.Sprintf("varbinary(%d)", size))
		var spelled []string
		for _, k := range cols {
			spelled = append(spelled, k.Value)
		}
		list := strings.Join(spelled, ", ")
		table := joinIdents(name)
		if len(cols) > 0 {
			is(&a.PartitionedJoinTable{Factor: &a.Table{Name: name}, ColumnList: cols}, table+" PARTITION BY ("+list+")")
		}
		copyStmt := &a.CopyStmt{TableName: name}
		head := "COPY " + table
		if r.Intn(4) > 0 {
			copyStmt.Columns = cols
			if len(cols) > 0 {
				head += " (" + list + ")"
			}
		}
		head += " FROM stdin;"
		var data []string
		for k := r.Intn(6); k > 0; k-- {
			if r.Intn(3) == 0 {
				copyStmt.Values = append(copyStmt.Values, nil)
				data = append(data, "\\N")
				continue
			}
			v := g.plainName()
			copyStmt.Values = append(copyStmt.Values, &v)
			data = append(data, v)
		}
		lines := []string{strings.Join(data, "\t"), "\\."}
		if len(data) == 0 {
			lines = lines[1:]
		}
		got := copyStmt.ToSQLString()
		c.eval(true, got)
		at := strings.Index(got, ";")
		if k := strings.LastIndex(head, ";"); at < 0 || strings.Count(head, ";") > 1 {
			at = k
		}
		if at >= len(got) || !strings.EqualFold(got[:at+1], head) || strings.Join(lines, "\n") != strings.TrimLeft(got[at+1:], " \n") {
			c.violate("built:CopyStmt", fmt.Sprintf("prints as %q", got), head+"\n"+strings.Join(lines, "\n"))
		}
		var group a.CommentGroup
		var texts []string
		for k := r.Intn(4); k >= 0; k-- {
			text := g.weirdText(12, 0)
			texts = append(texts, text)
			group.List = append(group.List, &a.Comment{Text: text})
		}
		c.eval(true, "comments", strings.Join(texts, "\n"))
		if got := group.ToSQLString(); got != strings.Join(texts, "\n") || group.List[0].ToSQLString() != texts[0] {
			c.violate("built:CommentGroup", fmt.Sprintf("prints as %q", got), strings.Join(texts, "\n"))
		}
	})
	c.cases("compare", c.count(1500), func(i int, r *rand.Rand) {
		sp := genSpec(r, i, anyStmt, anyStyle, nil)
		x, err := parseStmt(sp.l.text, sp.d)
		if err != nil {
			return
		}
		nodes := len(allNodes(x))
		if nodes > 60 {
			return
		}
		c.eval(true, sp.l.text)
		compare := func(x, y interface{}, want bool, what string) {
			for k := 0; k < 2; k++ {
				if got := xsqlparser.CompareWithoutMarker(x, y); (got == "") != want {
					c.violate("compare:"+what, fmt.Sprintf("trees that are equal: %v, reported: %q", want, got), sp.l.text)
				}
				x, y = y, x
			}
			c.add("comparisons", 2)
		}
		y := copyTree(x)
		compare(x, y, true, "copy")
		again, err := parseStmt(sp.l.text, sp.d)
		if err == nil {
			compare(x, again, true, "parsed-again")
		}
		// the comparison takes exponential time where everything differs, and in
		// the lists around a difference
		if nodes > 12 {
		} else if moved, err := parseStmt("\n"+sp.l.text, sp.d); err == nil {
			compare(x, moved, diffTrees(x, moved, true) == "", "moved")
		}
		var all []reflect.Value
		scalars(reflect.ValueOf(y), "", &all)
		for k := 0; k < 4 && listDepth(reflect.ValueOf(x)) <= 6; k++ {
			v := all[r.Intn(len(all))]
			old := reflect.New(v.Type()).Elem()
			old.Set(v)
			if what := alter(v, r); what != "" {
				compare(x, y, diffTrees(x, y, true) == "", "altered-"+what)
				c.add("altered_"+what, 1)
			}
			v.Set(old)
		}
		compare(x, y, true, "restored")
		if i%301 == 7 {
			c.sample(sp.l.text)
		}
	})
	c.cases("order", c.count(3000), func(i int, r *rand.Rand) {
		num := func() int {
			switch r.Intn(4) {
			case 0:
				return r.Intn(3)
			case 1:
				return []int{0, 1, math.MaxInt32, math.MaxInt64, 1 << 16, 1 << 31, math.MaxInt64 - 1}[r.Intn(7)]
			case 2:
				return r.Intn(1000)
			}
			return int(r.Uint64() >> 1)
		}
		mk := func() pos {
			l, k := num(), num()
			p := sqltoken.NewPos(l, k)
			if p.Line != l || p.Col != k {
				c.violate("NewPos", fmt.Sprintf("%v", p), fmt.Sprint(l, " ", k))
			}
			return p
		}
		for k := 0; k < 10; k++ {
			x, y := mk(), mk()
			if r.Intn(3) == 0 {
				y.Line = x.Line
			}
			want := 0
			switch {
			case x.Line < y.Line || x.Line == y.Line && x.Col < y.Col:
				want = -1
			case x != y:
				want = 1
			}
			in := fmt.Sprint(x, " ", y)
			c.eval(true, in)
			if g := sqltoken.ComparePos(x, y); g != want {
				c.violate("ComparePos", fmt.Sprintf("%d instead of %d", g, want), in)
			}
			if g := sqltoken.ComparePos(y, x); g != -want {
				c.violate("ComparePos", fmt.Sprintf("%d instead of %d", g, -want), in)
			}
			if (x.String() == y.String()) != (x == y) {
				c.violate("Pos.String", "different positions are written alike", in)
			}
		}
	})
	c.cases("names-of", 1, func(int, *rand.Rand) {
		seen := map[string]sqltoken.Kind{}
		for k := sqltoken.SQLKeyword; k <= sqltoken.ILLEGAL; k++ {
			s := k.String()
			if o, dup := seen[s]; dup || s == "" || strings.Contains(s, "(") {
				c.violate("Kind.String", fmt.Sprintf("kinds %d and %d are both called %q", o, k, s), s)
			}
			seen[s] = k
			c.eval(true, s)
		}
		for k, want := range map[sqltoken.Kind]string{sqltoken.SQLKeyword: "SQLKeyword", sqltoken.Number: "Number", sqltoken.Char: "Char", sqltoken.SingleQuotedString: "SingleQuotedString", sqltoken.NationalStringLiteral: "NationalStringLiteral", sqltoken.Comma: "Comma", sqltoken.Whitespace: "Whitespace", sqltoken.Comment: "Comment", sqltoken.Semicolon: "Semicolon", sqltoken.LParen: "LParen", sqltoken.RParen: "RParen", sqltoken.ILLEGAL: "ILLEGAL"} {
			if k.String() != want {
				c.violate("Kind.String", fmt.Sprintf("kind %s is called %q", want, k), want)
			}
		}
		for _, k := range []sqltoken.Kind{-1, sqltoken.ILLEGAL + 1, 1000, math.MinInt64, math.MaxInt64} {
			if s := k.String(); !strings.Contains(s, strconv.Itoa(int(k))) {
				c.violate("Kind.String", fmt.Sprintf("kind %d is called %q", int(k), s), s)
			}
		}
		for text, f := range map[string]a.FileFormat{"TEXTFILE": a.TEXTFILE, "SEQUENCEFILE": a.SEQUENCEFILE, "ORC": a.ORC, "PARQUET": a.PARQUET, "AVRO": a.AVRO, "RCFILE": a.RCFILE, "JSONFILE": a.JSONFILE} {
			f := f
			c.eval(true, text)
			if f.ToSQLString() != text || f.FromStr(text) != f {
				c.violate("FileFormat", fmt.Sprintf("%s is written %s and read as %d", text, f.ToSQLString(), f.FromStr(text)), text)
			}
		}
		for text, u := range map[string]a.WindowFrameUnitType{"ROWS": a.RowsUnit, "RANGE": a.RangeUnit, "GROUPS": a.GroupsUnit} {
			c.eval(true, text)
			got, err := (a.WindowFrameUnit{}).FromStr(text)
			if err != nil || got.Type != u || got.ToSQLString() != text {
				c.violate("WindowFrameUnit", fmt.Sprintf("%s is read as %v, %v", text, got, err), text)
			}
			for _, bad := range []string{"", text + " ", text[:3], strings.ToLower(text)} {
				if _, err := (a.WindowFrameUnit{}).FromStr(bad); err == nil {
					c.violate("WindowFrameUnit", "accepted", bad)
				}
			}
		}
		ops := map[string]a.OperatorType{"+": a.Plus, "-": a.Minus, "*": a.Multiply, "/": a.Divide, "%": a.Modulus, ">": a.Gt, "<": a.Lt, ">=": a.GtEq, "<=": a.LtEq, "=": a.Eq, "!=": a.NotEq, "AND": a.And, "OR": a.Or, "NOT": a.Not, "LIKE": a.Like, "NOT LIKE": a.NotLike}
		for text, t := range ops {
			c.eval(true, text)
			if s := (&a.Operator{Type: t}).ToSQLString(); s != text {
				c.violate("Operator", fmt.Sprintf("%s is written %q", text, s), text)
			}
		}
	})
	c.cases("words", c.count(4000), func(i int, r *rand.Rand) {
		d := dials[i%3]
		g := newG(r, d, 5)
		// a word made by hand is the one that the tokenizer gives
		w, q := g.plainName(), rune(0)
		if r.Intn(3) == 0 {
			w = caseKeyword(sortedKeywords[r.Intn(len(sortedKeywords))], r.Intn(3), r)
		}
		if r.Intn(3) == 0 {
			q = []rune("\"`[")[r.Intn(3)]
		}
		built := sqltoken.MakeKeyword(w, q)
		text := w
		if q != 0 {
			text = string(q) + w + string(closing(q))
		}
		c.eval(true, text)
		if built.Value != w || built.QuoteStyle != q || built.String() != text {
			c.violate("MakeKeyword", fmt.Sprintf("%+v, written %q", *built, built.String()), text)
		}
		if up := asciiUpper(w); frozenKeywords[up] && built.Keyword != up {
			c.violate("MakeKeyword", fmt.Sprintf("%+v", *built), text)
		}
		if q != 0 && !d.quoted(q) {
			return
		}
		toks, err := sqltoken.NewTokenizer(strings.NewReader(text), d.d).Tokenize()
		if err != nil || len(toks) != 1 {
			return
		}
		if x, ok := toks[0].Value.(*sqltoken.SQLWord); ok && *x != *built {
			c.violate("MakeKeyword", fmt.Sprintf("%+v, the tokenizer gives %+v", *built, *x), text)
		}
	})
}
