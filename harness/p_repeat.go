package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"reflect"
	"strings"

	"github.com/akito0107/xsqlparser"
	a "github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// ---- P24: parsing is repeatable, trees are independent

// digests of everything parsing a text gives.
func parseDigest(src string, d *dial) string {
	var b strings.Builder
	add := func(what string, n a.Node, err error) {
		fmt.Fprintf(&b, "%s: ", what)
		if err != nil {
			fmt.Fprintf(&b, "error %q\n", err.Error())
			return
		}
		b.WriteString(fullDump(n))
		b.WriteString("\n")
		b.WriteString(n.ToSQLString())
		b.WriteString("\n")
	}
	toks, err := sqltoken.NewTokenizer(strings.NewReader(src), d.d).Tokenize()
	fmt.Fprintf(&b, "tokens: %s %v\n", tokensText(toks), err)
	f, err := parseFile(src, d, true)
	add("file", f, err)
	if err == nil {
		b.WriteString(commentList(f) + "\n" + mapDump(f) + "\n")
	}
	s, err := parseStmt(src, d)
	add("statement", s, err)
	e, err := parseExpr(src, d)
	add("expression", e, err)
	return b.String()
}

// memory lists the addresses a tree owns: of nodes and other pointed-to
// values, and the ranges of its lists up to their capacity.
type memory struct {
	ptrs   map[uintptr]string
	ranges []memRange
}

type memRange struct {
	from, to uintptr
	what     string
}

func memoryOf(roots ...interface{}) *memory {
	m := &memory{ptrs: map[uintptr]string{}}
	for _, r := range roots {
		m.walk(reflect.ValueOf(r), typeName(r))
	}
	return m
}

func (m *memory) walk(v reflect.Value, path string) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.Type().Elem().Size() > 0 { // all empty values may be in one place
			m.ptrs[v.Pointer()] = path + " " + v.Type().String()
		}
		m.walk(v.Elem(), path)
	case reflect.Interface:
		if !v.IsNil() {
			m.walk(v.Elem(), path)
		}
	case reflect.Slice:
		if v.Cap() > 0 && v.Type().Elem().Size() > 0 {
			from := v.Pointer()
			m.ranges = append(m.ranges, memRange{from, from + uintptr(v.Cap())*v.Type().Elem().Size(), path + " " + v.Type().String()})
		}
		for i := 0; i < v.Len(); i++ {
			m.walk(v.Index(i), path)
		}
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if exported(v.Type().Field(i)) {
				m.walk(v.Field(i), v.Type().Name()+"."+v.Type().Field(i).Name)
			}
		}
	}
}

// shared describes memory that both trees own.
func (m *memory) shared(o *memory) string {
	for p, what := range m.ptrs {
		if other, ok := o.ptrs[p]; ok {
			return fmt.Sprintf("%s is also %s of the other", what, other)
		}
	}
	for _, x := range m.ranges {
		for _, y := range o.ranges {
			if x.from < y.to && y.from < x.to {
				return fmt.Sprintf("the list of %s overlaps that of %s of the other", x.what, y.what)
			}
		}
	}
	return ""
}

// ruin overwrites everything in a tree in place.
func ruin(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			ruin(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			ruin(v.Index(i))
		}
		if v.Cap() > v.Len() { // what append would write to
			w := v.Slice3(0, v.Cap(), v.Cap())
			for i := v.Len(); i < w.Len(); i++ {
				w.Index(i).Set(reflect.Zero(w.Type().Elem()))
			}
		}
		for i := 0; i < v.Len(); i++ {
			v.Index(i).Set(reflect.Zero(v.Type().Elem()))
		}
	case reflect.Struct:
		if v.Type() == timeType || !v.CanSet() {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if exported(v.Type().Field(i)) {
				ruin(v.Field(i))
				v.Field(i).Set(reflect.Zero(v.Field(i).Type()))
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("ruined")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() ^ 5)
		}
	case reflect.Uint, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 5)
		}
	}
}

func tokenDump(l []*sqltoken.Token) string {
	var b strings.Builder
	for _, t := range l {
		fmt.Fprintf(&b, "%p %s ", t, tokStr(t))
		if w, ok := t.Value.(*sqltoken.SQLWord); ok {
			fmt.Fprintf(&b, "%p %+v ", w, *w)
		} else {
			fmt.Fprintf(&b, "%#v ", t.Value)
		}
	}
	return b.String()
}

func repeatText(r *rand.Rand, i int) (string, *dial) {
	switch r.Intn(8) {
	case 0:
		return soup(r), dials[i%3]
	case 1:
		return grammarSoup(r), dials[i%3]
	case 2:
		sp := genSpec(r, i, anyStmt, plainOnly, nil)
		return mutate(sp, r), sp.d
	case 3:
		sp := genSpec(r, i, anyStmt, anyStyle, nil)
		return sp.l.text, sp.d
	}
	sc := genScript(r, i, anyStyle)
	t := sc.l.text
	if r.Intn(4) == 0 {
		t = editText(t, r)
	}
	return t, sc.d
}

type repeatCase struct {
	Text string
	D    int
}

// digestMain parses texts given on standard input in the given order.
func digestMain(args []string) {
	log.SetOutput(io.Discard)
	var cases []repeatCase
	if err := json.NewDecoder(os.Stdin).Decode(&cases); err != nil {
		os.Exit(4)
	}
	var out []uint64
	for _, x := range cases {
		out = append(out, hash(parseDigest(x.Text, dials[x.D])))
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func p24(c *Ctx) {
	log.SetOutput(io.Discard)
	c.rule = "texts (statements, scripts, mutants, soups; accepted and rejected): digest of tokens, trees with positions, comments, comment map, printed text and error messages, compared between repeated parses with other work in between, between processes in different orders, and with several parsers and tokenizers working in turn; trees of the same text or tokens: no shared memory (pointers, list capacity), printing/walking/asking leaves a tree and the tokens as they were, ruining one tree leaves the other; distinct by dialect and text, non-trivial if longer than 8 bytes"
	var cases []repeatCase
	var digests []uint64
	c.cases("repeat", c.count(5000), func(i int, r *rand.Rand) {
		src, d := repeatText(r, i)
		first := parseDigest(src, d)
		// other work in between, much of it failing in the middle
		for k := r.Intn(3); k > 0; k-- {
			t, od := repeatText(r, r.Intn(3))
			parseFile(t, od, true)
			if r.Intn(2) == 0 {
				parseStmt(t[:len(t)/2], od)
			}
		}
		for k := 0; k < 2; k++ {
			if again := parseDigest(src, d); again != first {
				x, y := firstDiff(first, again)
				c.violate("repeat", fmt.Sprintf("parsing the text again gives something else (dialect %s)\n1st %s\n2nd %s", d.name, x, y), src)
				break
			}
		}
		c.eval(len(src) > 8, d.name, src)
		if strings.Contains(first, "\nfile: error") {
			c.add("rejected_texts", 1)
		} else {
			c.add("accepted_texts", 1)
		}
		if len(cases) < 4000 {
			cases = append(cases, repeatCase{src, i % 3})
			digests = append(digests, hash(parseDigest(src, dials[i%3])))
		}
		if i%1999 == 5 {
			c.sample(src)
		}
	})
	if c.only < 0 && len(cases) > 0 {
		c.otherProcesses(cases, digests)
	}
	// several tokenizers and parsers at work in turn, in one goroutine, which share
	// their options
	c.cases("interleaved", c.count(3000), func(i int, r *rand.Rand) {
		type job struct {
			src     string
			d       *dial
			p       *xsqlparser.Parser
			tz      *sqltoken.Tokenizer
			toks    []*sqltoken.Token
			err     error
			ended   bool
			want    string
			pErr    error
			options []xsqlparser.ParserOption
		}
		outcome := func(f *a.File, err error) string {
			if err != nil || f == nil {
				return "error: " + errText(err)
			}
			return fullDump(f) + "\n" + commentList(f)
		}
		comments, quiet := xsqlparser.ParseComment(), sqltoken.DisableParseComment()
		dialects := map[*dial]sqltoken.TokenizerOption{}
		var jobs []*job
		for k := 2 + r.Intn(4); k > 0; k-- {
			j := &job{}
			j.src, j.d = repeatText(r, r.Intn(1000))
			if len(jobs) > 0 && r.Intn(4) == 0 {
				j.src, j.d = jobs[0].src, jobs[0].d
			}
			with := r.Intn(3) > 0
			if with {
				j.options = append(j.options, comments)
			}
			j.want = outcome(parseFile(j.src, j.d, with))
			jobs = append(jobs, j)
		}
		for _, j := range jobs {
			if dialects[j.d] == nil {
				dialects[j.d] = sqltoken.Dialect(j.d.d)
			}
			j.p, j.pErr = xsqlparser.NewParser(strings.NewReader(j.src), j.d.d, j.options...)
			j.tz = sqltoken.NewTokenizerWithOptions(strings.NewReader(j.src), dialects[j.d], quiet)
		}
		for left := len(jobs); left > 0; {
			j := jobs[r.Intn(len(jobs))]
			for k := 1 + r.Intn(4); k > 0 && !j.ended; k-- {
				t, err := j.tz.NextToken()
				if err != nil {
					j.ended = true
					left--
					if err != io.EOF {
						j.err = err
					}
				} else if t != nil {
					j.toks = append(j.toks, t)
				}
			}
		}
		for _, k := range r.Perm(len(jobs)) {
			j := jobs[k]
			got := "error: " + errText(j.pErr)
			if j.pErr == nil {
				got = outcome(j.p.ParseFile())
			}
			c.eval(len(j.src) > 8, "t", j.d.name, j.src)
			c.add("interleaved_jobs", 1)
			if got != j.want {
				x, y := firstDiff(j.want, got)
				c.violate("interleaved", fmt.Sprintf("a parser among others gives something else than alone (dialect %s)\nalone %s\namong others %s", j.d.name, x, y), j.src)
				return
			}
			want, err := sqltoken.NewTokenizer(strings.NewReader(j.src), j.d.d).Tokenize()
			if errText(err) != errText(j.err) {
				c.violate("interleaved-tokens", fmt.Sprintf("a tokenizer among others ends with %q instead of %q", errText(j.err), errText(err)), j.src)
				return
			}
			if err == nil {
				if df := diffTokens(j.toks, withoutSpace(want)); df != "" {
					c.violate("interleaved-tokens", "a tokenizer among others gives other tokens: "+df, j.src)
					return
				}
			}
		}
	})
	c.cases("independent", c.count(5000), func(i int, r *rand.Rand) {
		sc := genScript(r, i, anyStyle)
		src, d := sc.l.text, sc.d
		c.eval(len(src) > 8, "i", d.name, src)
		// from the same tokens, and from the same text
		toks, err := sqltoken.NewTokenizer(strings.NewReader(src), d.d).Tokenize()
		if err != nil {
			return
		}
		if r.Intn(2) == 0 {
			toks = withoutSpace(toks)
		}
		toks = append(make([]*sqltoken.Token, 0, len(toks)+5), toks...) // with room behind
		tokens := tokenDump(toks)
		fromTokens := func() *a.File {
			f, _ := parserFor(toks, xsqlparser.ParseComment()).ParseFile()
			return f
		}
		fromText := func() *a.File {
			f, _ := parseFile(src, d, true)
			return f
		}
		trees := []*a.File{fromTokens(), fromTokens(), fromText(), fromText()}
		if tokenDump(toks) != tokens {
			c.violate("tokens", "parsing changed the tokens", src)
			return
		}
		room := toks[:cap(toks)][len(toks):]
		for _, t := range room {
			if t != nil {
				c.violate("tokens", "parsing wrote behind the tokens", src)
				return
			}
		}
		var mems []*memory
		var dumps []string
		for _, t := range trees {
			if t == nil {
				return
			}
			m := memoryOf(t)
			mems = append(mems, m)
			dumps = append(dumps, fullDump(t))
			c.add("trees", 1)
		}
		for x := range mems {
			for y := x + 1; y < len(mems); y++ {
				if s := mems[x].shared(mems[y]); s != "" {
					c.violate("shared", "two trees share memory: "+s, src)
					return
				}
			}
		}
		// reading changes nothing
		for _, t := range trees {
			before := copyTree(t)
			for k := 0; k < 2; k++ {
				for _, kind := range []int{4, 5, 6, 8, 9, 14} {
					useFile(t, kind, r)
				}
			}
			if df := diffTrees(before, t, true); df != "" {
				c.violate("changed", "printing, walking or asking for positions changed the tree: "+df, src)
				return
			}
		}
		// ruining one leaves the others
		k := r.Intn(len(trees))
		ruin(reflect.ValueOf(trees[k]).Elem())
		for x := range trees {
			if x != k && fullDump(trees[x]) != dumps[x] {
				c.violate("ruined", "editing one tree changed another", src)
			}
		}
		if tokenDump(toks) != tokens {
			c.violate("tokens", "editing a tree changed the tokens it came from", src)
		}
		if f := fromTokens(); f == nil || fullDump(f) != dumps[0] {
			c.violate("later", "after editing a tree, parsing the same tokens gives something else", src)
		}
		if f := fromText(); f == nil || fullDump(f) != dumps[2] {
			c.violate("later", "after editing a tree, parsing the same text gives something else", src)
		}
	})
	// the parts of one tree that reading uses are not changed by it either
	l := learn(c.Seed*1000003, 3000)
	c.cases("handbuilt", c.count(5000), func(i int, r *rand.Rand) {
		t := l.randomTree(r, i, 1+r.Intn(4))
		before := copyTree(t)
		p1 := t.ToSQLString()
		a.Inspect(t, func(n a.Node) bool {
			if n != nil {
				safePos(n, false)
				safePos(n, true)
			}
			return true
		})
		p2 := t.ToSQLString()
		c.eval(len(p1) > 8, p1)
		if df := diffTrees(before, t, true); df != "" || p1 != p2 {
			c.violate("changed", "printing, walking or asking for positions changed the tree: "+df, dump(before))
		}
	})
}

func firstDiff(x, y string) (string, string) {
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	from := i - 100
	if from < 0 {
		from = 0
	}
	cut := func(s string) string { return s[min(from, len(s)):min(i+200, len(s))] }
	return cut(x), cut(y)
}

// otherProcesses has the same texts parsed elsewhere, in other orders.
func (c *Ctx) otherProcesses(cases []repeatCase, digests []uint64) {
	n := 3
	if c.Thorough {
		n = 20
	}
	for k := 0; k < n; k++ {
		r := c.rng(k, "process")
		perm := r.Perm(len(cases))
		shuffled := make([]repeatCase, len(cases))
		for i, j := range perm {
			shuffled[i] = cases[j]
		}
		in, _ := json.Marshal(shuffled)
		cmd := exec.Command(selfPath(), "digest")
		cmd.Stdin = bytes.NewReader(in)
		var errs tail
		cmd.Stderr = &errs
		b, err := cmd.Output()
		var out []uint64
		if err != nil || json.Unmarshal(b, &out) != nil || len(out) != len(cases) {
			if m := fatalRe.FindString(errs.head.String()); m != "" {
				c.violate("fatal", m, errs.head.String())
				return
			}
			c.broken = fmt.Sprintf("the other process ended with %v: %s", err, firstLine(errs.head.String()))
			return
		}
		for i, j := range perm {
			if out[i] != digests[j] {
				c.violate("process", "another process, with another history, parses the text differently", cases[j].Text)
				return
			}
		}
		c.add("texts_compared_with_other_processes", len(cases))
	}
}

func init() { extra["digest"] = digestMain }
