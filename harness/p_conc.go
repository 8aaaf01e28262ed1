package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/akito0107/xsqlparser"
	a "github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// ---- jobs: everything one may do with the library, as a digest

// yieldReader and yieldWriter give way to other goroutines in the middle of
// the library's work.
type yieldReader struct {
	s string
	r *rand.Rand
}

func (y *yieldReader) Read(p []byte) (int, error) {
	if len(y.s) == 0 {
		return 0, io.EOF
	}
	if y.r.Intn(3) == 0 {
		runtime.Gosched()
		atomic.AddInt64(&yields, 1)
	}
	n := 1 + y.r.Intn(64)
	if n > len(y.s) {
		n = len(y.s)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, y.s[:n])
	y.s = y.s[n:]
	return n, nil
}

type yieldWriter struct {
	b bytes.Buffer
	r *rand.Rand
}

func (y *yieldWriter) Write(p []byte) (int, error) {
	if y.r.Intn(16) == 0 {
		runtime.Gosched()
		atomic.AddInt64(&yields, 1)
	}
	return y.b.Write(p)
}

var yields int64

type job struct {
	kind int
	text string
	d    int
	seed int64
}

const jobKinds = 16

// fullDump renders a tree with all positions.
func fullDump(n interface{}) string {
	b, err := json.Marshal(shape0(reflect.ValueOf(n)))
	if err != nil {
		return err.Error()
	}
	return string(b)
}

func shape0(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Invalid:
		return nil
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return shape0(v.Elem())
	case reflect.Slice:
		out := make([]interface{}, v.Len())
		for i := range out {
			out[i] = shape0(v.Index(i))
		}
		return out
	case reflect.Struct:
		if v.Type() == timeType {
			return fmt.Sprint(v.Interface())
		}
		out := []interface{}{v.Type().Name()}
		for i := 0; i < v.NumField(); i++ {
			if exported(v.Type().Field(i)) {
				out = append(out, v.Type().Field(i).Name, shape0(v.Field(i)))
			}
		}
		return out
	case reflect.Float64:
		return fmt.Sprint(v.Float())
	}
	return fmt.Sprint(v.Interface())
}

func walkDump(n a.Node) string {
	var b strings.Builder
	a.Inspect(n, func(x a.Node) bool {
		if x == nil {
			b.WriteString(")")
			return false
		}
		fmt.Fprintf(&b, "(%s%v-%v", typeName(x), x.Pos(), x.End())
		return true
	})
	return b.String()
}

func mapDump(f *a.File) string {
	m := a.NewCommentMap(f)
	var l []string
	for n, gs := range m {
		s := fmt.Sprintf("%s %v:", typeName(n), n.Pos())
		for _, g := range gs {
			s += fmt.Sprintf(" %v", g.Pos())
		}
		l = append(l, s)
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// renameAll rewrites a tree in place.
func renameAll(n a.Node) a.Node {
	return sqlastutil.Apply(n, func(c *sqlastutil.Cursor) bool {
		switch x := c.Node().(type) {
		case *a.Ident:
			c.Replace(&a.Ident{Value: "r_" + x.Value})
			return false
		case *a.LongValue:
			if c.Index() >= 0 {
				c.InsertAfter(&a.LongValue{Long: x.Long + 1})
			}
		}
		return true
	}, func(c *sqlastutil.Cursor) bool { return true })
}

// cutAll deletes and inserts in every list of names and expressions.
func cutAll(n a.Node) a.Node {
	k := 0
	return sqlastutil.Apply(n, nil, func(c *sqlastutil.Cursor) bool {
		if _, ok := c.Node().(*a.Ident); ok && c.Index() >= 0 {
			k++
			switch k % 3 {
			case 0:
				c.Delete()
			case 1:
				c.InsertBefore(a.NewIdent(fmt.Sprint("b", k)))
			}
		}
		return true
	})
}

// builtNodes makes nodes of the types that no text parses to, and of values.
func builtNodes(r *rand.Rand) string {
	t := time.Unix(r.Int63n(4e9), 0).UTC()
	f := a.FileFormat(r.Intn(7))
	name := a.NewObjectName(fmt.Sprint("n", r.Intn(1000)), "m")
	v := fmt.Sprint("v", r.Intn(1000))
	size := uint(r.Intn(1e6))
	out := f.ToSQLString() + fmt.Sprint(f.FromStr("ORC"), sqltoken.Kind(r.Intn(30)), sqltoken.ComparePos(sqltoken.NewPos(r.Intn(9), 1), sqltoken.NewPos(4, r.Intn(3))))
	unit, err := (a.WindowFrameUnit{}).FromStr([]string{"ROWS", "RANGE", "x"}[r.Intn(3)])
	out += fmt.Sprint(unit.Type, err)
	w := sqltoken.MakeKeyword([]string{"select", "SELECT", "SeLecT", "x", "xY"}[r.Intn(5)], []rune{0, '"', '`', '['}[r.Intn(4)])
	out += w.String() + w.Keyword
	for _, n := range []a.Node{a.NewTimeValue(t), &a.DateValue{Date: t}, a.NewDateTimeValue(t), a.NewTimestampValue(t), a.NewLongValue(r.Int63()), a.NewDoubleValue(r.Float64()), a.NewSingleQuotedString("it's" + v), a.NewNationalStringLiteral(v), a.NewBooleanValue(r.Intn(2) == 0), a.NewNullValue(),
		&a.CopyStmt{TableName: name, Columns: name.Idents, Values: []*string{&v, nil, &v}}, &a.Clob{Size: size}, &a.Blob{Size: size}, &a.Binary{Size: size}, &a.Varbinary{Size: size},
		&a.PartitionedJoinTable{Factor: &a.Table{Name: name}, ColumnList: name.Idents}, &a.SelectExpr{Select: &a.SQLSelect{Projection: []a.SQLSelectItem{&a.UnnamedSelectItem{Node: a.NewLongValue(int64(size))}}}}} {
		var b bytes.Buffer
		k, err := n.WriteTo(&b)
		out += fmt.Sprintln(n.ToSQLString(), b.String(), k, err)
		if x, ok := n.(a.Value); ok {
			out += fmt.Sprint(x.Value())
		}
	}
	return out
}

func (j *job) run() (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("panic: %v", r)
		}
	}()
	r := rand.New(rand.NewSource(j.seed))
	d := dials[j.d].d
	rd := &yieldReader{j.text, r}
	fail := func(err error) string { return "error: " + err.Error() }
	switch j.kind {
	case 0:
		l, err := sqltoken.NewTokenizer(rd, d).Tokenize()
		if err != nil {
			return fail(err)
		}
		return tokensText(l)
	case 1:
		tz := sqltoken.NewTokenizerWithOptions(rd, sqltoken.Dialect(d), sqltoken.DisableParseComment())
		var b strings.Builder
		for {
			t, err := tz.NextToken()
			if err == io.EOF {
				return b.String()
			}
			if err != nil {
				return b.String() + fail(err)
			}
			b.WriteString(tokStr(t))
			if r.Intn(8) == 0 {
				runtime.Gosched()
			}
		}
	case 10:
		p, err := xsqlparser.NewParser(rd, d)
		if err != nil {
			return fail(err)
		}
		e, err := p.ParseExpr()
		if err != nil {
			return fail(err)
		}
		return fullDump(e) + e.ToSQLString()
	case 12:
		for k := 0; k < 4; k++ {
			out += builtNodes(r)
		}
		return out
	case 13:
		x, err := parseStmt(j.text, dials[j.d])
		if err != nil {
			return fail(err)
		}
		y, _ := parseStmt(j.text, dials[j.d])
		return fmt.Sprint(xsqlparser.CompareWithoutMarker(x, y))
	case 11:
		p, err := xsqlparser.NewParser(rd, d)
		if err != nil {
			return fail(err)
		}
		e, err := p.ParseDataType()
		if err != nil {
			return fail(err)
		}
		return fullDump(e)
	}
	var opts []xsqlparser.ParserOption
	if j.kind%2 == 0 {
		opts = append(opts, xsqlparser.ParseComment())
	}
	p, err := xsqlparser.NewParser(rd, d, opts...)
	if err != nil {
		return fail(err)
	}
	if j.kind == 3 {
		l, err := p.ParseSQL()
		if err != nil {
			return fail(err)
		}
		for _, s := range l {
			out += fullDump(s)
		}
		return out
	}
	f, err := p.ParseFile()
	if err != nil {
		return fail(err)
	}
	return useFile(f, j.kind, r)
}

// useFile reads, or for one kind rewrites, a tree.
func useFile(f *a.File, kind int, r *rand.Rand) string {
	switch kind {
	case 2:
		return fullDump(f)
	case 4:
		return f.ToSQLString()
	case 5:
		w := &yieldWriter{r: r}
		n, err := f.WriteTo(w)
		return fmt.Sprint(w.b.String(), n, err)
	case 6:
		return walkDump(f)
	case 7:
		return renameAll(f).ToSQLString()
	case 8:
		return mapDump(f)
	case 14:
		out := ""
		for _, g := range f.Comments {
			w := &yieldWriter{r: r}
			n, err := g.WriteTo(w)
			out += fmt.Sprintln(g.ToSQLString(), w.b.String(), n, err, g.Pos(), g.End())
		}
		nodes := allNodes(f)
		for k := 0; k < 40; k++ {
			n := nodes[r.Intn(len(nodes))]
			w := &yieldWriter{r: r}
			k, err := n.WriteTo(w)
			out += fmt.Sprintln(n.ToSQLString(), w.b.String(), k, err)
		}
		return out
	case 15:
		return cutAll(f).ToSQLString()
	}
	k := 0
	sqlastutil.Apply(f, func(c *sqlastutil.Cursor) bool { k++; return true }, nil)
	return fmt.Sprint(k, f.Pos(), f.End())
}

func genJobs(seed int64, n int) []*job {
	var jobs []*job
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(int64(hash(seed, i, "jobs"))))
		j := &job{kind: i % jobKinds, d: r.Intn(3), seed: r.Int63()}
		sc := genScript(r, j.d, anyStyle)
		j.text = sc.l.text
		switch {
		case j.kind == 13:
			j.text = []string{"SELECT a, 1 FROM t WHERE b > 'x'", "DROP TABLE a.b", "INSERT INTO t (a) VALUES (1, NULL)", "UPDATE t SET a = 1.5"}[r.Intn(4)]
		case j.kind == 10:
			g := &exprGen{newG(r, dials[j.d], 20), castForms{}}
			e := g.expr(3)
			em := newEmitter(g.pg, nil)
			em.expr(e)
			j.text = layout(em.items, dials[j.d], plainStyle, r).text
		case j.kind == 11:
			g := newG(r, dials[j.d], 20)
			em := newEmitter(nil, nil)
			em.dataType(g.dataType(false))
			j.text = layout(em.items, dials[j.d], plainStyle, r).text
		case r.Intn(6) == 0:
			j.text = editText(j.text, r)
		case r.Intn(8) == 0:
			j.text, _ = longText(r, j.d, 4000)
		}
		jobs = append(jobs, j)
	}
	return jobs
}

// ---- P23

type raceReport struct {
	Jobs, Runs, Goroutines, Shared int
	Yields                         int64
	MaxInFlight                    int64
	Orders                         []uint64 // hashes of the order in which jobs ended
	Mismatches                     []string
	Errors                         int
	Hashes                         []uint64 // of the jobs
}

// raceMain is one round in a process of its own: nothing of the library has
// run before the goroutines start together.
func raceMain(args []string) {
	log.SetOutput(io.Discard)
	var seed int64
	var workers, perWorker, procs int
	fmt.Sscan(args[0], &seed)
	fmt.Sscan(args[1], &workers)
	fmt.Sscan(args[2], &perWorker)
	fmt.Sscan(args[3], &procs)
	runtime.GOMAXPROCS(procs)
	rep := raceReport{}
	jobs := genJobs(seed, perWorker)
	rep.Jobs = len(jobs)
	results := make([][]string, workers)
	var inFlight, maxIn int64
	var mu sync.Mutex
	var order []int
	start := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		results[w] = make([]string, len(jobs))
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			perm := rand.New(rand.NewSource(seed*31 + int64(w))).Perm(len(jobs))
			if w%2 == 0 { // half of them do the same at the same time
				perm = rand.New(rand.NewSource(seed)).Perm(len(jobs))
			}
			<-start
			for _, k := range perm {
				if x := atomic.AddInt64(&inFlight, 1); x > atomic.LoadInt64(&maxIn) {
					atomic.StoreInt64(&maxIn, x)
				}
				results[w][k] = jobs[k].run()
				atomic.AddInt64(&inFlight, -1)
				if k%8 == 0 {
					mu.Lock()
					order = append(order, w)
					mu.Unlock()
				}
			}
		}(w)
	}
	close(start)
	wg.Wait()
	rep.Goroutines, rep.MaxInFlight = workers, maxIn
	rep.Orders = append(rep.Orders, hash(order))
	// alone
	for k, j := range jobs {
		want := j.run()
		rep.Hashes = append(rep.Hashes, hash(j.kind, j.d, j.text))
		if strings.HasPrefix(want, "error:") {
			rep.Errors++
		}
		for w := range results {
			rep.Runs++
			if results[w][k] != want && len(rep.Mismatches) < 5 {
				rep.Mismatches = append(rep.Mismatches, fmt.Sprintf("job kind %d, dialect %d\n%s\nalone       %.1500s\nconcurrent  %.1500s", j.kind, j.d, j.text, want, results[w][k]))
			}
		}
	}
	// one tree, many readers
	for i := 0; i < perWorker/8; i++ {
		r := rand.New(rand.NewSource(int64(hash(seed, i, "shared"))))
		sc := genScript(r, i, anyStyle)
		f, err := parseFile(sc.l.text, sc.d, true)
		if err != nil {
			continue
		}
		rep.Shared++
		kinds := []int{2, 4, 5, 6, 8, 9, 14}
		got := make([]string, 2*len(kinds))
		var wg sync.WaitGroup
		begin := make(chan struct{})
		for k := range got {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				<-begin
				got[k] = useFile(f, kinds[k%len(kinds)], rand.New(rand.NewSource(seed+int64(k))))
			}(k)
		}
		close(begin)
		wg.Wait()
		for k := range got {
			rep.Runs++
			if want := useFile(f, kinds[k%len(kinds)], rand.New(rand.NewSource(seed+int64(k)))); got[k] != want && len(rep.Mismatches) < 5 {
				rep.Mismatches = append(rep.Mismatches, fmt.Sprintf("shared tree, use %d\n%s\nalone       %.1500s\nconcurrent  %.1500s", kinds[k%len(kinds)], sc.l.text, want, got[k]))
			}
		}
	}
	rep.Yields = atomic.LoadInt64(&yields)
	json.NewEncoder(os.Stdout).Encode(rep)
}

func p23(c *Ctx) {
	c.rule = "the race detector's build of the library: rounds in fresh processes, in each 4-16 goroutines released together (nothing of the library used before) run the same jobs (tokenize, parse, print, walk, map and print comments, compare, rewrite, build and print hand-made nodes, with readers and writers that yield) in different orders, then one tree is read by 14 goroutines; every result must equal that of the job alone, and the detector must stay silent; evaluations are job results compared, distinct by job, non-trivial if several jobs were in flight"
	rounds := 40
	per := 80
	if c.Thorough {
		rounds, per = 400, 160
	}
	c.cases("round", rounds, func(i int, r *rand.Rand) {
		workers := []int{4, 8, 16}[i%3]
		procs := []int{8, 2, 4, 8}[i%4]
		seed := r.Int63n(1 << 40)
		cmd := exec.Command(selfPath(), "race", fmt.Sprint(seed), fmt.Sprint(workers), fmt.Sprint(per), fmt.Sprint(procs))
		cmd.Env = append(os.Environ(), "GORACE=exitcode=66 atexit_sleep_ms=0")
		var out bytes.Buffer
		var errs tail
		cmd.Stdout, cmd.Stderr = &out, &errs
		err := cmd.Run()
		text := errs.head.String() + errs.rest.String()
		input := fmt.Sprintf("harness race %d %d %d %d", seed, workers, per, procs)
		if k := strings.Index(text, "WARNING: DATA RACE"); k >= 0 {
			c.violate("race", "the race detector reports a data race", input+"\n"+text)
			return
		}
		if m := fatalRe.FindString(text); m != "" {
			c.violate("fatal", m, input+"\n"+text)
			return
		}
		var rep raceReport
		if err != nil || json.Unmarshal(out.Bytes(), &rep) != nil {
			c.broken = fmt.Sprintf("round %d ended with %v: %s", i, err, firstLine(text))
			return
		}
		for _, m := range rep.Mismatches {
			c.violate("differs", "a job gives another result when run concurrently", input+"\n"+m)
		}
		c.add("job_runs_compared", rep.Runs)
		c.add("yields_inside_the_library", int(rep.Yields))
		c.add("shared_trees", rep.Shared)
		c.add("jobs_with_error_results", rep.Errors)
		if rep.MaxInFlight > c.counters["max_jobs_in_flight"] {
			c.counters["max_jobs_in_flight"] = rep.MaxInFlight
		}
		c.evals += int64(rep.Runs - len(rep.Hashes))
		for _, h := range rep.Hashes {
			c.eval(rep.MaxInFlight > 1, h)
		}
		if !c.seen[rep.Orders[0]] {
			c.seen[rep.Orders[0]] = true
			c.counters["distinct_completion_orders"]++
		}
		c.sample(fmt.Sprintf("%s: %d runs, up to %d jobs in flight, completion order %v", input, rep.Runs, rep.MaxInFlight, rep.Orders))
	})
	if !raceEnabled {
		c.broken = "the harness was built without the race detector"
	}
}

func init() { extra["race"] = raceMain }
