package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"

	a "github.com/akito0107/xsqlparser/sqlast"
)

// ---- P22: WriteTo

// writeFaults are what writers fail with.
var writeFaults = append([]error{errors.New("no space left"), io.EOF, fmt.Errorf("the connection ended: %w", io.EOF)}, ioErrors...)

// faultWriter takes limit bytes and then fails for good (limit < 0: never).
// late makes it report the failure with the call that fills it up instead of
// with the one after that; it then still takes all of that call's bytes.
type faultWriter struct {
	limit int
	fault error
	late  bool
	max   int // at most so many bytes are taken of the failing call
	got   []byte
	err   error
	after int // bytes offered after the failure
	calls int
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.err != nil {
		w.after += len(p)
		if len(p) == 0 {
			return 0, nil
		}
		return 0, w.err
	}
	if w.limit >= 0 {
		room := w.limit - len(w.got)
		if len(p) > room {
			w.got = append(w.got, p[:room]...)
			w.err = w.fault
			return room, w.err
		}
		if len(p) == room && w.late && len(p) > 0 {
			w.got = append(w.got, p...)
			w.err = w.fault
			return len(p), w.err
		}
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

// faultStringWriter takes strings as well.
type faultStringWriter struct {
	faultWriter
	strs int
}

func (w *faultStringWriter) WriteString(s string) (int, error) {
	w.strs++
	return w.Write([]byte(s))
}

// byteStringWriter takes strings and single bytes, as bufio.Writer does.
type byteStringWriter struct{ faultStringWriter }

func (w *byteStringWriter) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})
	return err
}

func (c *Ctx) checkWrites(n a.Node, r *rand.Rand, full bool) {
	want := n.ToSQLString()
	name := typeName(n)
	bad := func(key, format string, args ...interface{}) {
		c.violate(key+":"+name, fmt.Sprintf(format, args...)+"\n"+dump(n), want)
	}
	var buf bytes.Buffer
	if k, err := n.WriteTo(&buf); buf.String() != want || k != int64(buf.Len()) || err != nil {
		bad("buffer", "WriteTo a buffer: %q, %d bytes, error %v; the text is %q (%d bytes)", buf.String(), k, err, want, len(want))
		return
	}
	points := map[int]bool{-1: true}
	if full && len(want) <= 400 {
		for i := 0; i <= len(want); i++ {
			points[i] = true
		}
	} else {
		points[0], points[len(want)] = true, true
		for k := 0; k < 12; k++ {
			points[r.Intn(len(want)+1)] = true
		}
	}
	for i := range points {
		for kind := 0; kind < 4; kind++ {
			late := kind == 3 || kind == 2 && i%2 == 0
			fault := writeFaults[(i+len(want)*4+kind+1)%len(writeFaults)]
			var w io.Writer
			var fw *faultWriter
			switch kind {
			case 0, 3:
				fw = &faultWriter{limit: i, fault: fault, late: late}
				w = fw
			case 1:
				x := &faultStringWriter{faultWriter{limit: i, fault: fault}, 0}
				w, fw = x, &x.faultWriter
			default:
				x := &byteStringWriter{faultStringWriter{faultWriter{limit: i, fault: fault, late: late}, 0}}
				w, fw = x, &x.faultWriter
			}
			k, err := n.WriteTo(w)
			c.evals++
			c.counters["writer_calls"] += int64(fw.calls)
			upTo := want
			if i >= 0 && i < len(want) {
				upTo = want[:i]
			}
			if fw.err != nil {
				c.counters["faults_delivered"]++
				if late && len(fw.got) > 0 {
					upTo = want[:len(fw.got)]
				}
			} else if i >= 0 && i < len(want) {
				bad("swallowed", "a writer that fails after %d bytes (kind %d) was not filled: got %q of %q", i, kind, fw.got, want)
				continue
			}
			switch {
			case string(fw.got) != upTo:
				bad("bytes", "failure after %d bytes (kind %d): delivered %q instead of %q", i, kind, fw.got, upTo)
			case k != int64(len(fw.got)):
				bad("count", "failure after %d bytes (kind %d): %d bytes reported, %d delivered", i, kind, k, len(fw.got))
			case fw.err == nil && err != nil, fw.err != nil && !errors.Is(err, fw.err):
				bad("error", "failure after %d bytes (kind %d): the writer's error is %v, WriteTo's %v", i, kind, fw.err, err)
			case fw.after > 0:
				bad("after", "failure after %d bytes (kind %d): %d more bytes offered afterwards", i, kind, fw.after)
			}
		}
	}
	buf.Reset()
	if k, err := n.WriteTo(&buf); buf.String() != want || k != int64(len(want)) || err != nil || n.ToSQLString() != want {
		bad("again", "after the failures it is written as %q, %d bytes, error %v instead of %q", buf.String(), k, err, want)
	}
	h := hash(want, name)
	if len(want) > 4 && !c.seen[h] {
		c.seen[h] = true
		c.nontriv++
	}
}

func p22(c *Ctx) {
	c.rule = "statements, files with comments and all their parts, and hand-built trees of every node type (value, copy and partition nodes too), written to writers with and without WriteString/WriteByte, without a fault and failing after every number of bytes 0..n (sampled for texts over 400 bytes and for nested nodes); a monitor in the writer records bytes, errors and bytes offered after the failure; one evaluation per node, writer and fault point, distinct by node type and text, non-trivial if longer than 4 bytes"
	l := learn(c.Seed*1000003, 3000)
	c.cases("handbuilt", c.count(3000), func(i int, r *rand.Rand) {
		t := l.randomTree(r, i, 1+r.Intn(4))
		c.checkWrites(t, r, true)
		c.countNodes(t)
	})
	c.cases("stmt", c.count(1200), func(i int, r *rand.Rand) {
		sp := genSpec(r, i, anyStmt, func(*rand.Rand) gapStyle { return plainStyle }, nil)
		c.checkWrites(sp.stmt, r, true)
		for _, n := range allNodes(sp.stmt)[1:] {
			c.checkWrites(n, r, false)
		}
		c.countNodes(sp.stmt)
		if i%499 == 5 {
			c.sample(sp.stmt.ToSQLString())
		}
	})
	c.cases("files", c.count(500), func(i int, r *rand.Rand) {
		sc := genScript(r, i, func(r *rand.Rand) gapStyle { return commentStyle(r) })
		f, err := parseFile(sc.l.text, sc.d, true)
		if err != nil {
			return
		}
		c.checkWrites(f, r, true)
		for _, g := range f.Comments {
			c.checkWrites(g, r, true)
			c.add("comment_groups", 1)
			for _, x := range g.List {
				c.checkWrites(x, r, true)
			}
		}
	})
}
