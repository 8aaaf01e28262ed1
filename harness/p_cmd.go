package main

import (
	"bytes"
	"context"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"
	"unicode"

	a "github.com/akito0107/xsqlparser/sqlast"
)

// buildCmd builds a command of /repo into the scratch directory.
func (c *Ctx) buildCmd(pkg, name string) string {
	dir := c.scratch()
	out := filepath.Join(dir, name)
	cmd := exec.Command("go", "build", "-o", out, pkg)
	cmd.Dir = c.Repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	if b, err := cmd.CombinedOutput(); err != nil {
		c.fatal("building %s: %v\n%s", pkg, err, b)
	}
	return out
}

var scratchDir string

// scratch is a directory that check.sh removes.
func (c *Ctx) scratch() string {
	if scratchDir == "" {
		d, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "scratch")
		if err != nil {
			c.fatal("%v", err)
		}
		scratchDir = d
	}
	return scratchDir
}

// slowText hands over a text in a few pieces, with pauses in between.
type slowText struct {
	rest string
	left int // pieces
}

func (s *slowText) Read(p []byte) (int, error) {
	if s.rest == "" {
		return 0, io.EOF
	}
	n := len(s.rest)
	if s.left--; s.left > 0 {
		time.Sleep(3 * time.Millisecond)
		n = (n*2 + 4) / 5
	}
	n = copy(p, s.rest[:n])
	s.rest = s.rest[n:]
	return n, nil
}

type ran struct {
	code     int
	out, err string
	timeout  bool
}

func runCmd(bin string, args []string, stdin interface{}, dir string, env ...string) ran {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	switch x := stdin.(type) {
	case string:
		cmd.Stdin = strings.NewReader(x)
	case *os.File:
		cmd.Stdin = x
	case io.Reader:
		cmd.Stdin = x
	}
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	cmd.Run()
	return ran{cmd.ProcessState.ExitCode(), out.String(), errs.String(), ctx.Err() != nil}
}

func (r ran) String() string {
	return fmt.Sprintf("exit %d\nstdout: %.3000s\nstderr: %.3000s", r.code, r.out, r.err)
}

// ---- P25

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")
var traceRe = regexp.MustCompile(`(?m)^(goroutine \d+ |panic: |fatal error: |\s+/.*\.go:\d+)`)
var dumpNode = regexp.MustCompile(`&sqlast\.(\w+)\{`)
var simpleName = regexp.MustCompile(`^[A-Za-z0-9_@ ]+$`)

func p25(c *Ctx) {
	c.rule = "the built astprinter fed on standard input, at once, in pieces and from a file, and by -f: generated statements (exit 0, the dump shows every node of the tree and its plain names, the library's SQL is printed), damaged texts that the library refuses, empty input, unreadable files and directories (non-zero exit, a message, no trace of a panic); distinct by text and way of input, non-trivial if longer than 8 bytes"
	bin := c.buildCmd("./cmd/astprinter", "astprinter")
	file := filepath.Join(c.scratch(), "in.sql")
	feed := func(text string, how int) ran {
		switch how {
		case 0:
			return runCmd(bin, nil, text, c.scratch())
		case 3:
			return runCmd(bin, nil, &slowText{rest: text, left: 4}, c.scratch())
		}
		if err := os.WriteFile(file, []byte(text), 0o644); err != nil {
			c.fatal("%v", err)
		}
		if how == 2 {
			f, err := os.Open(file)
			if err != nil {
				c.fatal("%v", err)
			}
			defer f.Close()
			return runCmd(bin, nil, f, c.scratch())
		}
		return runCmd(bin, []string{"-f", file}, "", c.scratch())
	}
	refused := func(r ran, what, input string) {
		switch {
		case r.timeout:
			c.violate("hang", "no end after 60 s for "+what, input)
		case r.code == 0:
			c.violate("accepted:"+what, "exit 0 for "+what+"\n"+r.String(), input)
		case strings.TrimSpace(r.err) == "":
			c.violate("silent:"+what, "no message for "+what+"\n"+r.String(), input)
		case traceRe.MatchString(r.err) || traceRe.MatchString(r.out):
			c.violate("trace:"+what, "a stack trace for "+what+"\n"+r.String(), input)
		}
		c.add("refused_runs", 1)
	}
	judge := func(text string, how int) {
		r := feed(text, how)
		want, err := parseStmt(text, dials[genericIndex()])
		c.eval(len(text) > 8, text, how)
		if err != nil {
			refused(r, "a text that is refused by the parser", text)
			return
		}
		c.add("accepted_runs", 1)
		all := r.out + "\n" + r.err
		sql := want.ToSQLString()
		switch {
		case r.timeout:
			c.violate("hang", "no end after 60 s", text)
			return
		case r.code != 0:
			c.violate("exit", fmt.Sprintf("exit %d for a valid statement\n%s", r.code, r), text)
			return
		case !strings.Contains(all, sql):
			c.violate("sql", fmt.Sprintf("the statement's SQL %q is not printed\n%s", sql, r), text)
			return
		case traceRe.MatchString(r.err):
			c.violate("trace", "a stack trace\n"+r.String(), text)
		}
		if longestList(want) > 1000 { // the dump may abbreviate it
			c.add("dumps_with_a_long_list", 1)
			return
		}
		dumped := ansi.ReplaceAllString(r.out, "")
		seen := map[string]int{}
		for _, m := range dumpNode.FindAllStringSubmatch(dumped, -1) {
			seen[m[1]]++
		}
		n := 0
		for _, x := range allNodes(want) {
			seen[typeName(x)]--
			n++
			if i, ok := x.(*a.Ident); ok && simpleName.MatchString(i.Value) && !strings.Contains(dumped, `"`+i.Value+`"`) {
				c.violate("dump-name", fmt.Sprintf("the name %q is not in the dump\n%s", i.Value, r), text)
			}
		}
		for t, k := range seen {
			if k < 0 {
				c.violate("dump-node", fmt.Sprintf("%d of the %s nodes are not in the dump\n%s", -k, t, r), text)
			}
		}
		c.add("dumped_nodes_checked", n)
	}
	c.cases("stmt", c.count(500), func(i int, r *rand.Rand) {
		sp := genSpec(r, genericIndex(), anyStmt, anyStyle, nil)
		judge(sp.l.text, i%4)
		if i%199 == 5 {
			c.sample(sp.l.text)
		}
	})
	c.cases("bad", c.count(500), func(i int, r *rand.Rand) {
		var t string
		switch i % 5 {
		case 0:
			t = soup(r)
		case 1:
			t = grammarSoup(r)
		case 2:
			sp := genSpec(r, genericIndex(), anyStmt, plainOnly, nil)
			t = mutate(sp, r)
		case 3:
			t = byteSoup(r)
		default:
			sp := genSpec(r, genericIndex(), anyStmt, anyStyle, nil)
			t = editBytes(sp.l.text, r)
		}
		judge(t, r.Intn(4))
	})
	c.cases("fixed", 1, func(i int, r *rand.Rand) {
		for _, t := range []string{"", " ", "\n", "-- c", "/* c */", ";", "'", "\"", "/*", "!", "SELECT", "SELECT 1;", "SELECT 1; SELECT 2", "SELECT " + strings.Repeat("(", 200000), "SELECT '" + strings.Repeat("x", 70000) + "'"} {
			for how := 0; how < 4; how++ {
				judge(t, how)
			}
		}
		dir := c.scratch()
		refused(runCmd(bin, []string{"-f", filepath.Join(dir, "nothing.sql")}, "", dir), "a file that does not exist", "-f nothing.sql")
		refused(runCmd(bin, []string{"-f", dir}, "", dir), "a directory", "-f .")
		if f, err := os.Open(dir); err == nil {
			refused(runCmd(bin, nil, f, dir), "a directory on standard input", "")
			f.Close()
		}
		if f, err := os.OpenFile(filepath.Join(dir, "wo"), os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
			refused(runCmd(bin, nil, f, dir), "standard input that cannot be read", "")
			f.Close()
		}
		refused(runCmd(bin, []string{"-nosuchflag"}, "SELECT 1", dir), "an unknown flag", "-nosuchflag")
		sub := filepath.Join(dir, "sub")
		os.MkdirAll(filepath.Join(sub, "d"), 0o755)
		for _, name := range []string{"a b.sql", "trailing ", " leading", "-dash", "d/x", "./d/../y", "é", "STDIN", "stdin.sql", "-", "%s", "a*", "$HOME", "~", "x\ny", sub + "/abs"} {
			full := filepath.Join(sub, name)
			if filepath.IsAbs(name) {
				full = name
			}
			if err := os.WriteFile(full, []byte("SELECT x1"), 0o644); err != nil {
				c.fatal("%v", err)
			}
			if r := runCmd(bin, []string{"-f=" + name}, "SELECT other", sub); r.code != 0 || !strings.Contains(r.out+r.err, "SELECT x1") {
				c.violate("file", "a file named with -f is not read\n"+r.String(), "-f='"+name+"'")
			}
			c.add("file_names", 1)
		}
	})
}

func genericIndex() int {
	for i, d := range dials {
		if d.name == "generic" {
			return i
		}
	}
	panic("no generic dialect")
}

// ---- P26

// snakeName and privateName follow from how the type name is put together.
func joinWords(words []string) (name, snake, private string) {
	for i, w := range words {
		l := strings.ToLower(w)
		name += w
		if i > 0 {
			snake += "_"
		}
		snake += l
	}
	private = strings.ToLower(words[0]) + strings.Join(words[1:], "")
	return
}

func typeWords(r *rand.Rand) []string {
	var words []string
	for n := 1 + r.Intn(4); n > 0; n-- {
		switch {
		case r.Intn(5) == 0 && (len(words) == 0 || words[len(words)-1] != "SQL"):
			words = append(words, "SQL")
		default:
			w := string(rune('A' + r.Intn(26)))
			for k := 1 + r.Intn(6); k > 0; k-- {
				w += string(rune('a' + r.Intn(26)))
			}
			words = append(words, w)
		}
	}
	if r.Intn(8) == 0 && words[len(words)-1] != "SQL" {
		words = append(words, string(rune('A'+r.Intn(26)))) // as FooB
	}
	return words
}

const scaffold = `package %s

type Node interface{ N() int }
type Other interface{ O(string) error }
type Node2 interface {
	Node
	M2()
}
type NodeList interface{ L() []int }
type A interface{ A1() }
type B_c interface{ A2(...int) }
type XNode interface{ A3() }
`

// scaffoldMethods are the methods of the interfaces one may embed.
var scaffoldMethods = map[string][]string{"Node": {"N"}, "Other": {"O"}, "Node2": {"N", "M2"}, "error": {"Error"}, "NodeList": {"L"}, "A": {"A1"}, "B_c": {"A2"}, "XNode": {"A3"}}

var scaffoldNames = []string{"Node", "Other", "Node2", "error", "NodeList", "A", "B_c", "XNode"}

func listDir(dir string) []string {
	es, _ := os.ReadDir(dir)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	sort.Strings(out)
	return out
}

func p26(c *Ctx) {
	c.rule = "the built generator run in scratch directories on random type names made of capitalised words and SQL, lists of embedded interfaces, package by flag or environment and output names; the file is type-checked together with the embedded interfaces: method sets, who implements the interface and who does not, inside and outside of the package; names that must be refused; and every go:generate line of the syntax tree package against the committed file; distinct by arguments, non-trivial if a file was judged"
	bin := c.buildCmd("./tools/genmark", "genmark")
	nextDir := 0
	newDir := func() string {
		nextDir++
		d := filepath.Join(c.scratch(), fmt.Sprintf("g%d", nextDir))
		if err := os.MkdirAll(d, 0o755); err != nil {
			c.fatal("%v", err)
		}
		return d
	}
	c.cases("gen", c.count(1500), func(i int, r *rand.Rand) {
		words := typeWords(r)
		name, snake, private := joinWords(words)
		if _, taken := scaffoldMethods[name]; taken || token.IsKeyword(private) || types.Universe.Lookup(private) != nil {
			return
		}
		var embedded []string
		some := 1 + r.Intn(4)
		for _, e := range scaffoldNames {
			if r.Intn(some+1) == 0 {
				embedded = append(embedded, e)
			}
		}
		r.Shuffle(len(embedded), func(x, y int) { embedded[x], embedded[y] = embedded[y], embedded[x] })
		pkg := []string{"sqlast", "p", "my_pkg"}[r.Intn(3)]
		dir := newDir()
		defer os.RemoveAll(dir)
		args := []string{"-t", name}
		if r.Intn(3) == 0 {
			args = []string{"-t=" + name}
		}
		if len(embedded) > 0 {
			args = append(args, "-e", strings.Join(embedded, ","))
			if len(embedded) > 4 {
				c.add("lists_of_more_than_4_interfaces", 1)
			}
		}
		env := "GOPACKAGE=" + pkg
		if r.Intn(3) == 0 {
			args = append(args, "-pkg", pkg)
			env = "GOPACKAGE=another"
		}
		want, outDir := snake+"_gen.go", dir
		if r.Intn(4) == 0 {
			sub := []string{"", "", "sub/", dir + "/sub/"}[r.Intn(4)]
			args = append(args, "-o", sub+"out"+snake)
			want = "out" + snake + "_gen.go"
			if sub != "" {
				outDir = filepath.Join(dir, "sub")
				os.Mkdir(outDir, 0o755)
			}
		}
		if r.Intn(4) == 0 { // over an older and longer file
			os.WriteFile(filepath.Join(outDir, want), bytes.Repeat([]byte("// old\n"), 100), 0o644)
		}
		input := strings.Join(args, " ") + " " + env
		res := runCmd(bin, args, "", dir, env)
		c.eval(true, input)
		if i%499 == 5 {
			c.sample("genmark " + input)
		}
		if res.code != 0 {
			c.violate("exit", fmt.Sprintf("exit %d for a valid request\n%s", res.code, res), input)
			return
		}
		if outDir != dir {
			if files := listDir(dir); len(files) != 1 {
				c.violate("file", fmt.Sprintf("files written: %v besides the directory of -o", files), input)
				return
			}
		}
		if files := listDir(outDir); len(files) != 1 || files[0] != want {
			c.violate("file", fmt.Sprintf("files written: %v instead of %s", files, want), input)
			return
		}
		src, err := os.ReadFile(filepath.Join(outDir, want))
		if err != nil {
			c.violate("file", err.Error(), input)
			return
		}
		if f, err := format.Source(src); err != nil || !bytes.Equal(f, src) {
			c.violate("format", fmt.Sprintf("the file is not formatted: %v", err), input+"\n"+string(src))
			return
		}
		if d := judgeMarker(string(src), pkg, name, private, embedded); d != "" {
			c.violate("marker:"+firstLine(d), d, input+"\n"+string(src))
			return
		}
		c.add("files_type_checked", 1)
	})
	c.cases("refused", c.count(200), func(i int, r *rand.Rand) {
		words := typeWords(r)
		name, _, private := joinWords(words)
		var args []string
		usage := true
		switch i % 8 {
		case 7: // the private form is a keyword
			k := []string{"break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough", "for", "func", "go", "goto", "if", "import", "interface", "map", "package", "range", "return", "select", "struct", "switch", "type", "var"}
			w := k[r.Intn(len(k))]
			args = []string{"-t", strings.ToUpper(w[:1]) + w[1:]}
			if r.Intn(2) == 0 {
				args = append(args, "-e", "Node")
			}
			usage = false
		case 0:
			args = []string{}
		case 1:
			args = []string{"-t", ""}
		case 2:
			if private == name {
				return
			}
			args = []string{"-t", private}
		case 3:
			args = []string{"-t", "_" + name}
		case 4:
			args = []string{"-e", "Node"}
		case 5:
			args = []string{"-t", "1" + name}
		case 6:
			args = []string{"-t", []string{"élan", "ß", "ñandu"}[r.Intn(3)] + name}
		}
		dir := newDir()
		defer os.RemoveAll(dir)
		res := runCmd(bin, args, "", dir, "GOPACKAGE=p")
		input := strings.Join(args, " ")
		c.eval(false, input)
		c.add("refused_runs", 1)
		switch {
		case res.code == 0:
			c.violate("refuse", "exit 0 for a request without an exported type name", input)
		case len(listDir(dir)) > 0:
			c.violate("refuse-file", fmt.Sprintf("a refused request writes %v", listDir(dir)), input)
		case traceRe.MatchString(res.err):
			c.violate("trace", "a stack trace\n"+res.String(), input)
		case usage && !strings.Contains(res.err, "-pkg"):
			c.violate("usage", "no usage message\n"+res.String(), input)
		}
	})
	c.cases("committed", 1, func(i int, r *rand.Rand) { c.regenerate(bin, newDir()) })
}

// judgeMarker type-checks a generated file.
func judgeMarker(src, pkg, name, private string, embedded []string) string {
	fset := token.NewFileSet()
	methods := `func (M) N() int { return 0 }
func (M) O(string) error { return nil }
func (M) M2() {}
func (M) Error() string { return "" }
func (M) L() []int { return nil }
func (M) A1() {}
func (M) A2(...int) {}
func (M) A3() {}
`
	use := "package " + pkg + "\n" +
		"type Marked struct { " + private + "; M }\n" +
		"type MarkedPtr struct { *" + private + "; M }\n" +
		"type OnlyMarker struct { " + private + " }\n" +
		"type OnlyMethods struct { M }\n" +
		"type M struct{}\n" + methods +
		"var _ " + name + " = Marked{}\n" +
		"var _ " + name + " = &Marked{}\n"
	var files []*ast.File
	for i, s := range []string{src, fmt.Sprintf(scaffold, pkg), use} {
		f, err := parser.ParseFile(fset, fmt.Sprintf("f%d.go", i), s, parser.ParseComments)
		if err != nil {
			return "the file does not parse: " + err.Error()
		}
		files = append(files, f)
	}
	if !strings.Contains(src, "DO NOT EDIT") {
		return "the file is not marked as generated"
	}
	p, err := (&types.Config{}).Check("example.org/"+pkg, fset, files, nil)
	if err != nil {
		return "the package does not compile: " + err.Error()
	}
	obj := p.Scope().Lookup(name)
	if obj == nil || !types.IsInterface(obj.Type()) {
		return "no interface " + name
	}
	iface := obj.Type().Underlying().(*types.Interface)
	mark := p.Scope().Lookup(private)
	if mark == nil {
		return "no struct " + private
	}
	if st, ok := mark.Type().Underlying().(*types.Struct); !ok || st.NumFields() != 0 {
		return private + " is no empty struct"
	}
	has := map[string]bool{}
	for _, e := range embedded {
		for _, m := range scaffoldMethods[e] {
			has[m] = true
		}
	}
	want := 1 + len(has) // the marker
	if iface.NumMethods() != want {
		return fmt.Sprintf("the interface has %d methods instead of %d", iface.NumMethods(), want)
	}
	unexported := 0
	for i := 0; i < iface.NumMethods(); i++ {
		if !unicode.IsUpper([]rune(iface.Method(i).Name())[0]) {
			unexported++
		}
	}
	if unexported != 1 {
		return fmt.Sprintf("%d unexported methods: the interface is not closed by exactly one marker", unexported)
	}
	lookup := func(n string) types.Type { return p.Scope().Lookup(n).Type() }
	if types.Implements(lookup("OnlyMethods"), iface) {
		return "a type without the marker implements the interface"
	}
	if got := types.Implements(lookup("OnlyMarker"), iface); got != (len(embedded) == 0) {
		return fmt.Sprintf("a type with the marker alone implements the interface: %v", got)
	}
	for _, e := range embedded {
		t := types.Universe.Lookup("error")
		if e != "error" {
			t = p.Scope().Lookup(e)
		}
		if !types.Implements(obj.Type(), t.Type().Underlying().(*types.Interface)) {
			return "the interface does not include " + e
		}
	}
	// another package cannot implement it, even with methods of the same names
	var foreign strings.Builder
	foreign.WriteString("package q\ntype M struct{}\n" + methods)
	for i := 0; i < iface.NumMethods(); i++ {
		if n := iface.Method(i).Name(); !unicode.IsUpper([]rune(n)[0]) {
			foreign.WriteString("func (M) " + n + "() {}\n")
		}
	}
	f, err := parser.ParseFile(fset, "q.go", foreign.String(), 0)
	if err != nil {
		return "outside of the package: " + err.Error()
	}
	q, err := (&types.Config{}).Check("example.org/q", fset, []*ast.File{f}, nil)
	if err != nil {
		return "outside of the package: " + err.Error()
	}
	if types.Implements(q.Scope().Lookup("M").Type(), iface) {
		return "a type of another package implements the interface"
	}
	return ""
}

// regenerate runs the go:generate lines of sqlast.
func (c *Ctx) regenerate(bin, dir string) {
	sources, _ := filepath.Glob(filepath.Join(c.Repo, "sqlast", "*.go"))
	asked := 0
	for _, s := range sources {
		b, err := os.ReadFile(s)
		if err != nil {
			c.fatal("%v", err)
		}
		for _, line := range strings.Split(string(b), "\n") {
			if !strings.HasPrefix(line, "//go:generate genmark ") {
				continue
			}
			args := strings.Fields(line)[2:]
			asked++
			res := runCmd(bin, args, "", dir, "GOPACKAGE=sqlast", "GOFILE="+filepath.Base(s))
			c.eval(true, line)
			if res.code != 0 {
				c.violate("regenerate", fmt.Sprintf("%s\n%s", line, res), line)
			}
		}
	}
	committed, _ := filepath.Glob(filepath.Join(c.Repo, "sqlast", "*_gen.go"))
	var names []string
	for _, f := range committed {
		names = append(names, filepath.Base(f))
		want, _ := os.ReadFile(f)
		got, err := os.ReadFile(filepath.Join(dir, filepath.Base(f)))
		if err != nil || !bytes.Equal(got, want) {
			c.violate("regenerate:"+filepath.Base(f), fmt.Sprintf("regenerating %s gives another file (%v)\n%s", filepath.Base(f), err, got), string(want))
		}
		c.add("committed_files_reproduced", 1)
	}
	sort.Strings(names)
	if got := listDir(dir); strings.Join(got, " ") != strings.Join(names, " ") {
		c.violate("regenerate", fmt.Sprintf("generated %v, committed %v", got, names), "")
	}
	c.add("generate_lines", asked)
}

// longestList returns how long the longest list inside of x is.
func longestList(x interface{}) int {
	max := 0
	var visit func(v reflect.Value)
	visit = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if !v.IsNil() {
				visit(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				visit(v.Field(i))
			}
		case reflect.Slice:
			if v.Len() > max {
				max = v.Len()
			}
			for i := 0; i < v.Len(); i++ {
				visit(v.Index(i))
			}
		}
	}
	visit(reflect.ValueOf(x))
	return max
}
