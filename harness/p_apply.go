package main

import (
	"fmt"
	"io"
	"log"
	"math/rand"
	"reflect"

	a "github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// place is where a node hangs in a tree.
type place struct {
	parent a.Node
	field  string
	index  int
}

// nodeAt reads a place by reflection.
func nodeAt(p place) (a.Node, string) {
	v := reflect.Indirect(reflect.ValueOf(p.parent)).FieldByName(p.field)
	if !v.IsValid() {
		return nil, "no such field"
	}
	if p.index >= 0 {
		if v.Kind() != reflect.Slice || p.index >= v.Len() {
			return nil, "no such element"
		}
		v = v.Index(p.index)
	} else if v.Kind() == reflect.Slice {
		return nil, "the field is a list"
	}
	n, _ := v.Interface().(a.Node)
	return n, ""
}

// applyFrame is a node whose pre call was seen and whose post call is due.
type applyFrame struct {
	node  a.Node
	place place
	due   map[place]a.Node // children not visited yet
	lists map[string]int   // last index visited per list
}

// applyMonitor checks the callbacks of one traversal online.
type applyMonitor struct {
	stack   []*applyFrame
	root    a.Node
	noPre   bool
	noPost  bool
	aborted bool
	calls   int
	err     string
}

func (m *applyMonitor) fail(format string, args ...interface{}) {
	if m.err == "" {
		m.err = fmt.Sprintf(format, args...)
	}
}

func frameFor(n a.Node, p place) *applyFrame {
	f := &applyFrame{node: n, place: p, due: map[place]a.Node{}, lists: map[string]int{}}
	for _, c := range children(n) {
		f.due[place{n, c.field, c.index}] = c.node
	}
	return f
}

func (m *applyMonitor) cursorPlace(c *sqlastutil.Cursor) place {
	return place{c.Parent(), c.Name(), c.Index()}
}

// pre notes a pre call and returns its frame.
func (m *applyMonitor) pre(c *sqlastutil.Cursor) {
	m.calls++
	if m.aborted {
		m.fail("pre called for %s after the traversal was ended", typeName(c.Node()))
		return
	}
	n, p := c.Node(), m.cursorPlace(c)
	if n == nil || reflect.ValueOf(n).IsNil() {
		m.fail("pre called with a nil node below %s, field %s", typeName(c.Parent()), c.Name())
		return
	}
	if at, why := nodeAt(p); why != "" || at != n {
		m.fail("the cursor of a %s says %s.%s[%d], where it is not (%s)", typeName(n), typeName(p.parent), p.field, p.index, why)
		return
	}
	if len(m.stack) == 0 {
		if n != m.root {
			m.fail("the first node is not the root but %s", typeName(n))
			return
		}
		if p.index != -1 {
			m.fail("the root has index %d", p.index)
		}
		m.root = nil // only once
		m.stack = append(m.stack, frameFor(n, p))
		return
	}
	top := m.stack[len(m.stack)-1]
	want, ok := top.due[p]
	if !ok || want != n {
		m.fail("%s (%s.%s[%d]) visited twice, or outside of its parent: inside of %s", typeName(n), typeName(p.parent), p.field, p.index, typeName(top.node))
		return
	}
	if p.index >= 0 {
		if last, ok := top.lists[p.field]; ok && last >= p.index || !ok && p.index != 0 {
			m.fail("%s.%s[%d] visited out of order", typeName(p.parent), p.field, p.index)
		}
		top.lists[p.field] = p.index
	}
	delete(top.due, p)
	m.stack = append(m.stack, frameFor(n, p))
}

// skipped: pre returned false.
func (m *applyMonitor) skipped() {
	if len(m.stack) > 0 {
		m.stack = m.stack[:len(m.stack)-1]
	}
}

func (m *applyMonitor) post(c *sqlastutil.Cursor) {
	m.calls++
	if m.aborted {
		m.fail("post called for %s after the traversal was ended", typeName(c.Node()))
		return
	}
	if len(m.stack) == 0 {
		m.fail("post called for %s, whose pre call was not seen or refused", typeName(c.Node()))
		return
	}
	top := m.stack[len(m.stack)-1]
	if c.Node() != top.node {
		m.fail("post called for %s while %s is not done", typeName(c.Node()), typeName(top.node))
		return
	}
	if p := m.cursorPlace(c); p != top.place {
		m.fail("the cursor of post for %s says %s.%s[%d], that of pre said %s.%s[%d]", typeName(top.node), typeName(p.parent), p.field, p.index, typeName(top.place.parent), top.place.field, top.place.index)
	}
	if len(top.due) > 0 {
		for p, n := range top.due {
			m.fail("post called for %s before its child %s[%d] (%s) was visited", typeName(top.node), p.field, p.index, typeName(n))
			break
		}
	}
	m.stack = m.stack[:len(m.stack)-1]
}

// postOrder lists the places of a tree below root in the order in which
// children are due first; lists the nodes to expect when only post is given.
func countPlaces(n a.Node) int {
	k := 1
	for _, c := range children(n) {
		k += countPlaces(c.node)
	}
	return k
}

func (c *Ctx) checkApply(root a.Node, r *rand.Rand, src string) {
	before := copyTree(root)
	bad := func(what, d string) { c.violate(what+":"+typeName(root), what+": "+d+"\n"+dump(root), src) }
	// both callbacks
	mode := r.Intn(3)
	abortAt := -1
	total := countPlaces(root)
	if r.Intn(3) == 0 {
		abortAt = r.Intn(total)
	}
	m := &applyMonitor{root: root}
	posts, skips, pres := 0, 0, 0
	res := sqlastutil.Apply(root, func(cu *sqlastutil.Cursor) bool {
		pres++
		m.pre(cu)
		if mode > 0 && r.Intn(8*mode) == 0 {
			m.skipped()
			skips++
			return false
		}
		return true
	}, func(cu *sqlastutil.Cursor) bool {
		m.post(cu)
		posts++
		if posts-1 == abortAt {
			m.aborted = true
			return false
		}
		return true
	})
	if m.err == "" && !m.aborted {
		if len(m.stack) != 0 {
			m.fail("no post call for %s", typeName(m.stack[len(m.stack)-1].node))
		}
		if m.root != nil {
			m.fail("the root is never visited")
		}
		if skips == 0 && (pres != total || posts != total) {
			m.fail("%d pre and %d post calls for %d nodes", pres, posts, total)
		}
	}
	if m.err != "" {
		bad("apply", m.err)
		return
	}
	if res != root {
		bad("apply", "the result is not the root")
	}
	c.add("callbacks", m.calls)
	c.add("skipped_subtrees", skips)
	if m.aborted {
		c.add("ended_early", 1)
	}
	// only one of the callbacks: each node once
	var order []a.Node
	seen := map[place]bool{}
	note := func(cu *sqlastutil.Cursor) bool {
		p := place{cu.Parent(), cu.Name(), cu.Index()}
		if at, why := nodeAt(p); why != "" || at != cu.Node() || seen[p] {
			m.fail("%s (%s.%s[%d]) visited twice or not there %s", typeName(cu.Node()), typeName(p.parent), p.field, p.index, why)
		}
		seen[p] = true
		order = append(order, cu.Node())
		return true
	}
	which := r.Intn(2)
	if which == 0 {
		res = sqlastutil.Apply(root, note, nil)
	} else {
		res = sqlastutil.Apply(root, nil, note)
	}
	first := 0
	if which == 1 {
		first = total - 1
	}
	switch {
	case m.err != "":
		bad("one callback", m.err)
	case len(order) != total:
		bad("one callback", fmt.Sprintf("%d calls for %d nodes", len(order), total))
	case order[first] != root:
		bad("one callback", "the root is not the first (pre) or last (post) one")
	case res != root:
		bad("one callback", "the result is not the root")
	}
	c.applyAnswers(root, r, total, bad)
	if r.Intn(4) == 0 {
		if res = sqlastutil.Apply(root, nil, nil); res != root {
			bad("no callback", "the result is not the root")
		}
	}
	if df := diffTrees(before, root, true); df != "" {
		bad("changed", "the traversal changed the tree: "+df)
	}
}

// applyAnswers: one callback alone that skips or ends, traversals within
// callbacks, and callbacks that panic.
func (c *Ctx) applyAnswers(root a.Node, r *rand.Rand, total int, bad func(what, d string)) {
	switch r.Intn(4) {
	case 0: // pre alone: the subtrees that it refuses are left out
		refused := map[a.Node]bool{}
		want, calls := 0, 0
		sqlastutil.Apply(root, func(cu *sqlastutil.Cursor) bool {
			calls++
			if n := cu.Node(); n != nil && r.Intn(5) == 0 {
				refused[n] = true
				return false
			}
			return true
		}, nil)
		var count func(n a.Node)
		count = func(n a.Node) {
			want++
			if !refused[n] {
				for _, ch := range children(n) {
					count(ch.node)
				}
			}
		}
		count(root)
		if distinctNodes(root) && calls != want {
			bad("pre alone", fmt.Sprintf("%d calls instead of %d, %d nodes refused", calls, want, len(refused)))
		}
		c.add("pre_alone_refusing", 1)
	case 1: // post alone: ended at one of the calls
		at, calls := r.Intn(total), 0
		res := sqlastutil.Apply(root, nil, func(*sqlastutil.Cursor) bool { calls++; return calls <= at })
		if calls != at+1 || res != root {
			bad("post alone", fmt.Sprintf("%d calls, ended at the %d.", calls, at+1))
		}
		c.add("post_alone_ended", 1)
	case 2: // another traversal, perhaps one that is ended, within a callback
		outer, posts := 0, 0
		res := sqlastutil.Apply(root, func(cu *sqlastutil.Cursor) bool {
			n, p, f, k := cu.Node(), cu.Parent(), cu.Name(), cu.Index()
			outer++
			if outer%7 == 1 && n != nil {
				inner, end := 0, 1+r.Intn(6)
				if x := sqlastutil.Apply(n, func(*sqlastutil.Cursor) bool { return true }, func(*sqlastutil.Cursor) bool { inner++; return inner != end }); x != n {
					bad("inner traversal", "its result is not its root")
				}
				if m := countPlaces(n); inner != min(m, end) {
					bad("inner traversal", fmt.Sprintf("%d post calls for %d nodes, ended at the %d.", inner, m, end))
				}
			}
			if cu.Node() != n || cu.Parent() != p || cu.Name() != f || cu.Index() != k {
				bad("inner traversal", "it moved the cursor of the outer one")
			}
			return true
		}, func(*sqlastutil.Cursor) bool { posts++; return true })
		if outer != total || posts != total || res != root {
			bad("outer traversal", fmt.Sprintf("%d pre and %d post calls for %d nodes", outer, posts, total))
		}
		c.add("traversals_within_traversals", 1)
	default: // a panic passes through
		at, calls := r.Intn(2*total), 0
		cause := fmt.Errorf("boom %d", at)
		call := func(*sqlastutil.Cursor) bool {
			if calls++; calls > at {
				panic(cause)
			}
			return true
		}
		func() {
			defer func() {
				if x := recover(); x != interface{}(cause) {
					bad("panic", fmt.Sprintf("a callback panics, the caller recovers %v", x))
				}
			}()
			sqlastutil.Apply(root, call, call)
		}()
		if calls != at+1 {
			bad("panic", fmt.Sprintf("%d calls, the %d. panicked", calls, at+1))
		}
		c.add("panicking_callbacks", 1)
	}
}

// distinctNodes reports whether no node hangs in the tree twice.
func distinctNodes(root a.Node) bool {
	seen := map[a.Node]bool{}
	for _, n := range allNodes(root) {
		if seen[n] {
			return false
		}
		seen[n] = true
	}
	return true
}

func p20(c *Ctx) {
	log.SetOutput(io.Discard)
	c.rule = "parsed statements, files and parts of them, and hand-built trees of every node type: an online monitor of the pre and post calls (nesting, each place once, cursor against the tree read by reflection), with random refused subtrees and traversals ended at a random post call, pre or post alone and none; distinct by tree, non-trivial if more than 3 nodes"
	c.cases("parsed", c.count(10000), func(i int, r *rand.Rand) {
		sp := genSpec(r, i, anyStmt, func(*rand.Rand) gapStyle { return plainStyle }, nil)
		f, err := parseFile(sp.l.text, sp.d, r.Intn(2) == 0)
		if err != nil {
			return
		}
		nodes := allNodes(f)
		c.checkApply(f, r, sp.l.text)
		c.checkApply(nodes[r.Intn(len(nodes))], r, sp.l.text)
		c.eval(len(nodes) > 3, sp.l.text)
		c.countNodes(f)
		if i%1999 == 5 {
			c.sample(sp.l.text)
		}
	})
	c.cases("scripts", c.count(1500), func(i int, r *rand.Rand) {
		sc := genScript(r, i, func(*rand.Rand) gapStyle { return plainStyle })
		if f, err := parseFile(sc.l.text, sc.d, r.Intn(2) == 0); err == nil {
			c.checkApply(f, r, sc.l.text)
			c.eval(len(f.Stmts) > 1, sc.l.text)
		}
	})
	l := learn(c.Seed*1000003, 3000)
	c.cases("handbuilt", c.count(10000), func(i int, r *rand.Rand) {
		t := l.randomTree(r, i, 1+r.Intn(4))
		c.checkApply(t, r, dump(t))
		c.eval(len(allNodes(t)) > 3, dump(t))
		c.countNodes(t)
	})
}

// ---- P21: edits through the cursor

// editRun is one traversal with random edits, next to a model of what the
// edits make of each list and field.
type editRun struct {
	r        *rand.Rand
	g        *exprGen
	l        *learned
	root     a.Node
	orig     map[place][]a.Node // the original lists (index -1)
	lists    map[place][]a.Node // the lists as the edits leave them
	fields   map[place]a.Node   // replaced single nodes
	at       map[a.Node]int     // where an original node is in its list now
	deleted  map[a.Node]bool
	muted    map[a.Node]bool // below a node that was replaced or deleted: visits not prescribed
	refused  map[a.Node]bool // pre returned false
	inserted map[a.Node]bool
	fresh    map[a.Node]a.Node // inserted trees and copies of them
	pres     map[a.Node]int
	posts    map[a.Node]int
	log      []string
	err      string
	edits    int
	panics   int
	prob     int
}

func (e *editRun) fail(format string, args ...interface{}) {
	if e.err == "" {
		e.err = fmt.Sprintf(format, args...)
	}
}

// make builds a node that may stand in the place.
func (e *editRun) make(p place) a.Node {
	v := reflect.Indirect(reflect.ValueOf(p.parent)).FieldByName(p.field)
	ty := v.Type()
	if p.index >= 0 {
		ty = ty.Elem()
	}
	if ty == nodeType {
		if v.Interface() == interface{}(e.root) || p.field == "Node" && p.index < 0 && len(e.pres) == 1 {
			ty = reflect.TypeOf(e.root)
		} else {
			return e.g.expr(1)
		}
	}
	return (&treeGen{e.g, e.l, 10}).value(ty, 2, "").Interface().(a.Node)
}

func (e *editRun) add(n a.Node) {
	for _, x := range allNodes(n) {
		e.inserted[x] = true
	}
	e.fresh[n] = copyTree(n)
}

func (e *editRun) mute(n a.Node) {
	for _, x := range allNodes(n)[1:] {
		if !e.inserted[x] {
			e.muted[x] = true
		}
	}
}

func listOf(p place) place { p.index = -1; return p }

func insertAt(l []a.Node, i int, n a.Node) []a.Node {
	out := make([]a.Node, 0, len(l)+1)
	out = append(out, l[:i]...)
	out = append(out, n)
	return append(out, l[i:]...)
}

// check compares the cursor with the model before any edit of this call.
func (e *editRun) check(cu *sqlastutil.Cursor, when string) (place, bool) {
	n := cu.Node()
	p := place{cu.Parent(), cu.Name(), cu.Index()}
	if e.inserted[n] {
		e.fail("%s called for the new node %s", when, typeName(n))
		return p, false
	}
	if e.deleted[n] {
		return p, false
	}
	if p.index >= 0 {
		want, ok := e.at[n]
		if !ok {
			e.fail("%s: %s is in no list of the original tree", when, typeName(n))
			return p, false
		}
		if want != p.index {
			e.fail("%s: index %d for %s, which is at %d", when, p.index, typeName(n), want)
			return p, false
		}
		got, why := nodeAt(p)
		l := e.lists[listOf(p)]
		if why != "" || p.index >= len(l) || got != l[p.index] {
			e.fail("%s: %s.%s[%d] is not the node of the model (%s)", when, typeName(p.parent), p.field, p.index, why)
			return p, false
		}
		return p, true
	}
	got, why := nodeAt(p)
	want := n
	if x, ok := e.fields[p]; ok {
		want = x
	}
	if why != "" || got != want {
		e.fail("%s: %s.%s is not the node of the model (%s)", when, typeName(p.parent), p.field, why)
		return p, false
	}
	return p, true
}

// shift moves the original nodes at and behind place i of a list.
func (e *editRun) shift(p place, i, by int) {
	for _, n := range e.orig[listOf(p)] {
		if e.at[n] >= i {
			e.at[n] += by
		}
	}
}

// outOfList tries what is only allowed in a list.
func (e *editRun) outOfList(cu *sqlastutil.Cursor, op int, p place) {
	defer func() {
		if recover() == nil {
			e.fail("no panic for an edit beside %s.%s, which is no list", typeName(p.parent), p.field)
		}
		e.panics++
	}()
	x := e.g.expr(1)
	switch op {
	case 1:
		cu.Delete()
	case 2:
		cu.InsertBefore(x)
	default:
		cu.InsertAfter(x)
	}
}

func (e *editRun) editSome(cu *sqlastutil.Cursor, p place, when string) {
	n := cu.Node()
	for k := 0; k < 3 && e.r.Intn(e.prob) == 0; k++ {
		op := e.r.Intn(4)
		if p.index < 0 && op > 0 && e.r.Intn(2) == 0 {
			e.outOfList(cu, op, p)
			continue
		}
		p.index = cu.Index()
		name := fmt.Sprintf("%s of %s at %s.%s[%d]", when, typeName(n), typeName(p.parent), p.field, p.index)
		x := e.make(p)
		e.edits++
		if p.index < 0 {
			e.log = append(e.log, "Replace in "+name)
			e.add(x)
			cu.Replace(x)
			e.fields[p] = x
			e.mute(n)
			continue
		}
		i, l := e.at[n], e.lists[listOf(p)]
		switch op {
		case 0:
			e.log = append(e.log, "Replace in "+name)
			e.add(x)
			cu.Replace(x)
			l = append([]a.Node{}, l...)
			l[i] = x
			e.mute(n)
		case 1:
			e.log = append(e.log, "Delete in "+name)
			cu.Delete()
			l = append(append([]a.Node{}, l[:i]...), l[i+1:]...)
			e.deleted[n] = true
			e.mute(n)
			e.shift(p, i+1, -1)
		case 2:
			e.log = append(e.log, "InsertBefore in "+name)
			e.add(x)
			cu.InsertBefore(x)
			l = insertAt(l, i, x)
			e.shift(p, i, 1)
		case 3:
			e.log = append(e.log, "InsertAfter in "+name)
			e.add(x)
			cu.InsertAfter(x)
			l = insertAt(l, i+1, x)
			e.shift(p, i+1, 1)
		}
		e.lists[listOf(p)] = l
		if op == 1 {
			return
		}
		if cu.Index() != e.at[n] {
			e.fail("%s: the cursor says %d, but the node is at %d", name, cu.Index(), e.at[n])
		}
	}
}

// shallow copies the fields of a node, lists included.
func shallow(n a.Node) reflect.Value {
	v := reflect.New(reflect.TypeOf(n).Elem()).Elem()
	v.Set(reflect.ValueOf(n).Elem())
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); exported(v.Type().Field(i)) && f.Kind() == reflect.Slice && !f.IsNil() {
			s := reflect.MakeSlice(f.Type(), f.Len(), f.Len())
			reflect.Copy(s, f)
			f.Set(s)
		}
	}
	return v
}

func (c *Ctx) checkEdits(root a.Node, l *learned, r *rand.Rand, src string) {
	g := &exprGen{newG(r, dials[0], 15), castForms{}}
	e := &editRun{r: r, g: g, l: l, root: root, orig: map[place][]a.Node{}, lists: map[place][]a.Node{}, fields: map[place]a.Node{}, at: map[a.Node]int{},
		deleted: map[a.Node]bool{}, muted: map[a.Node]bool{}, refused: map[a.Node]bool{}, inserted: map[a.Node]bool{}, fresh: map[a.Node]a.Node{},
		pres: map[a.Node]int{}, posts: map[a.Node]int{}}
	nodes := allNodes(root)
	e.prob = 2 + r.Intn(len(nodes)/2+2)
	snap := map[a.Node]reflect.Value{}
	parent := map[a.Node]a.Node{}
	for _, n := range nodes {
		snap[n] = shallow(n)
		for _, ch := range children(n) {
			parent[ch.node] = n
			if ch.index >= 0 {
				p := place{n, ch.field, -1}
				e.at[ch.node] = ch.index
				e.orig[p] = append(e.orig[p], ch.node)
				e.lists[p] = append(e.lists[p], ch.node)
			}
		}
	}
	// Half of the trees are printed and asked for positions before, too: what
	// they say afterwards must not be what they said then.
	var asked []a.Node
	if r.Intn(2) == 0 {
		for _, k := range r.Perm(len(nodes)) {
			if n := nodes[k]; len(asked) < 12 && balanced(n) {
				asked = append(asked, n)
			}
		}
		for _, n := range asked {
			ask(n)
		}
	}
	var holder place
	phases := 1 + r.Intn(3) // edits in pre, post or both
	refuse := r.Intn(2) == 0
	res := sqlastutil.Apply(root, func(cu *sqlastutil.Cursor) bool {
		n := cu.Node()
		e.pres[n]++
		p, ok := e.check(cu, "pre")
		if len(e.pres) == 1 {
			holder = p
		}
		if ok && phases&1 != 0 && e.err == "" {
			e.editSome(cu, p, "pre")
		}
		if refuse && r.Intn(10) == 0 {
			e.refused[n] = true
			return false
		}
		return true
	}, func(cu *sqlastutil.Cursor) bool {
		n := cu.Node()
		e.posts[n]++
		p, ok := e.check(cu, "post")
		if ok && phases&2 != 0 && e.err == "" {
			e.editSome(cu, p, "post")
		}
		return true
	})
	if x, ok := e.fields[holder]; ok {
		if res != x {
			e.fail("the root was replaced, but Apply returns %s", typeName(res))
		}
	} else if res != root {
		e.fail("Apply returns %s instead of the root", typeName(res))
	}
	for _, n := range nodes {
		under := false // of a refused node
		for p := parent[n]; p != nil; p = parent[p] {
			under = under || e.refused[p]
		}
		pre, post := e.pres[n], e.posts[n]
		switch {
		case e.muted[n] && pre <= 1 && post <= 1:
		case under && pre == 0 && post == 0:
		case !under && e.refused[n] && pre == 1 && post == 0:
		case !under && !e.refused[n] && pre == 1 && post == 1:
		default:
			e.fail("%s %s: %d pre calls and %d post calls", typeName(n), shortNode(n), pre, post)
		}
		v, old := reflect.ValueOf(n).Elem(), snap[n]
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if !exported(f) {
				continue
			}
			p := place{n, f.Name, -1}
			fv := v.Field(i)
			if want, ok := e.lists[p]; ok {
				same := fv.Kind() == reflect.Slice && fv.Len() == len(want)
				for k := 0; same && k < len(want); k++ {
					same = fv.Index(k).Interface() == interface{}(want[k])
				}
				if !same {
					e.fail("list %s.%s has %d elements, the model has %d, or others", typeName(n), f.Name, fv.Len(), len(want))
				} else if _, ok := n.(*a.Table); ok && f.Name == "Args" && fv.IsNil() {
					e.fail("the table function lost its parentheses with its last argument")
				}
				continue
			}
			if x, ok := e.fields[p]; ok {
				if fv.Interface() != interface{}(x) {
					e.fail("%s.%s is not its replacement", typeName(n), f.Name)
				}
				continue
			}
			if !reflect.DeepEqual(fv.Interface(), old.Field(i).Interface()) || fv.Kind() == reflect.Ptr && fv.Pointer() != old.Field(i).Pointer() {
				if fv.Type().Implements(nodeType) && fv.Interface() == old.Field(i).Interface() {
					continue // the same child, edited below
				}
				e.fail("%s.%s changed without an edit", typeName(n), f.Name)
			}
		}
	}
	for n, was := range e.fresh {
		if df := diffTrees(n, was, true); df != "" {
			e.fail("a new node was changed: %s", df)
		}
	}
	if e.err == "" && balanced(res) {
		if x, y := res.ToSQLString(), copyTree(res).ToSQLString(); x != y {
			e.fail("the edited tree prints as\n%s\na copy of it as\n%s", x, y)
		}
	}
	for k := len(asked) - 1; k >= 0 && e.err == ""; k-- {
		if n := asked[k]; balanced(n) {
			if x, y := ask(n), ask(copyTree(n)); x != y {
				e.fail("a node asked before and after the edits says\n%s\na copy of it\n%s", x, y)
			}
			c.add("nodes_asked_twice", 1)
		}
	}
	c.add("edits", e.edits)
	c.add("refused_edits_outside_lists", e.panics)
	c.add("nodes_visited", len(e.pres))
	if e.err != "" {
		edits := ""
		for _, s := range e.log {
			edits += "\n  " + s
		}
		c.violate("edit:"+firstLine(e.err), e.err+"\nedits:"+edits, src)
	}
	c.eval(e.edits > 0, fmt.Sprint(e.log), src)
}

func p21(c *Ctx) {
	log.SetOutput(io.Discard)
	c.rule = "one traversal with random Replace, Delete, InsertBefore and InsertAfter calls (several per node, in pre, post or both, refused subtrees, edits outside of lists) next to a model on plain lists; the tree read by reflection, the visits and the cursor must agree with the model; distinct by tree and edits, non-trivial if at least one edit"
	l := learn(c.Seed*1000003, 3000)
	c.cases("parsed", c.count(12000), func(i int, r *rand.Rand) {
		sp := genSpec(r, i, anyStmt, func(*rand.Rand) gapStyle { return plainStyle }, nil)
		f, err := parseFile(sp.l.text, sp.d, false)
		if err != nil {
			return
		}
		root := a.Node(f)
		if r.Intn(2) == 0 {
			nodes := allNodes(f)
			root = nodes[r.Intn(len(nodes))]
		}
		c.checkEdits(root, l, r, sp.l.text)
		if i%1999 == 5 {
			c.sample(sp.l.text)
		}
	})
	c.cases("scripts", c.count(2000), func(i int, r *rand.Rand) {
		sc := genScript(r, i, func(*rand.Rand) gapStyle { return plainStyle })
		if f, err := parseFile(sc.l.text, sc.d, r.Intn(2) == 0); err == nil {
			c.checkEdits(f, l, r, sc.l.text)
		}
	})
	c.cases("handbuilt", c.count(12000), func(i int, r *rand.Rand) {
		t := l.randomTree(r, i, 1+r.Intn(4))
		c.checkEdits(t, l, r, dump(t))
	})
}

// balanced reports whether every CASE has as many results as conditions:
// others cannot be printed.
func balanced(n a.Node) bool {
	for _, x := range allNodes(n) {
		if c, ok := x.(*a.CaseExpr); ok && len(c.Conditions) != len(c.Results) {
			return false
		}
	}
	return true
}

// ask returns what a node says about itself: its printed form and, where it has
// them, its positions.
func ask(n a.Node) string {
	at := func(f func() sqltoken.Pos) (s string) {
		defer func() {
			if recover() != nil {
				s = "none"
			}
		}()
		return fmt.Sprint(f())
	}
	return fmt.Sprintf("%s\nfrom %s to %s", n.ToSQLString(), at(n.Pos), at(n.End))
}
