package main

// Reflection helpers over sqlast trees: equality up to positions, children,
// deep copies and fingerprints. None of them uses the traversals under test.

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	a "github.com/akito0107/xsqlparser/sqlast"
)

var (
	posType  = reflect.TypeOf(pos{})
	nodeType = reflect.TypeOf((*a.Node)(nil)).Elem()
	timeType = reflect.TypeOf(time.Time{})
	cgType   = reflect.TypeOf((*a.CommentGroup)(nil))
)

func exported(f reflect.StructField) bool { return f.PkgPath == "" }

// diffTrees describes the first difference between two trees, "" if equal.
// Positions are compared only if withPos is set.
func diffTrees(x, y interface{}, withPos bool) string {
	return diffVal(reflect.ValueOf(x), reflect.ValueOf(y), "", withPos)
}

func short(v reflect.Value) string {
	s := fmt.Sprintf("%+v", v)
	if len(s) > 80 {
		s = s[:80] + "..."
	}
	return s
}

func diffVal(x, y reflect.Value, path string, wp bool) string {
	if !x.IsValid() || !y.IsValid() {
		if x.IsValid() != y.IsValid() {
			return fmt.Sprintf("%s: one is nil", path)
		}
		return ""
	}
	if x.Type() != y.Type() {
		return fmt.Sprintf("%s: %v vs %v", path, x.Type(), y.Type())
	}
	if x.Type() == posType && !wp {
		return ""
	}
	switch x.Kind() {
	case reflect.Ptr:
		if x.IsNil() || y.IsNil() {
			if x.IsNil() != y.IsNil() {
				return fmt.Sprintf("%s: nil vs non-nil %v", path, x.Type())
			}
			return ""
		}
		return diffVal(x.Elem(), y.Elem(), path, wp)
	case reflect.Interface:
		if x.IsNil() || y.IsNil() {
			if x.IsNil() != y.IsNil() {
				return fmt.Sprintf("%s: nil vs non-nil %v", path, x.Type())
			}
			return ""
		}
		return diffVal(x.Elem(), y.Elem(), path, wp)
	case reflect.Slice:
		if x.Len() != y.Len() {
			return fmt.Sprintf("%s: %d vs %d elements", path, x.Len(), y.Len())
		}
		if strings.HasSuffix(path, "Table.Args") && x.IsNil() != y.IsNil() {
			return fmt.Sprintf("%s: nil vs empty arguments", path)
		}
		for i := 0; i < x.Len(); i++ {
			if d := diffVal(x.Index(i), y.Index(i), fmt.Sprintf("%s[%d]", path, i), wp); d != "" {
				return d
			}
		}
		return ""
	case reflect.Struct:
		if x.Type() == timeType {
			if !x.Interface().(time.Time).Equal(y.Interface().(time.Time)) {
				return path + ": times differ"
			}
			return ""
		}
		name := x.Type().Name()
		for i := 0; i < x.NumField(); i++ {
			f := x.Type().Field(i)
			if !exported(f) {
				continue
			}
			if d := diffVal(x.Field(i), y.Field(i), path+"/"+name+"."+f.Name, wp); d != "" {
				return d
			}
		}
		return ""
	case reflect.Float64:
		if math.Float64bits(x.Float()) != math.Float64bits(y.Float()) {
			return fmt.Sprintf("%s: %v vs %v", path, x.Float(), y.Float())
		}
		return ""
	}
	if x.Interface() != y.Interface() {
		return fmt.Sprintf("%s: %s vs %s", path, short(x), short(y))
	}
	return ""
}

type child struct {
	node  a.Node
	field string
	index int // -1 if the field is no list
}

// children lists the non-nil child nodes of n in field order.
func children(n a.Node) []child {
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return nil
	}
	v = v.Elem()
	var out []child
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !exported(f) {
			continue
		}
		fv := v.Field(i)
		one := func(e reflect.Value, idx int) {
			if !e.Type().Implements(nodeType) || e.Type() == cgType {
				return
			}
			if (e.Kind() == reflect.Ptr || e.Kind() == reflect.Interface) && e.IsNil() {
				return
			}
			out = append(out, child{e.Interface().(a.Node), f.Name, idx})
		}
		if fv.Kind() == reflect.Slice {
			for k := 0; k < fv.Len(); k++ {
				one(fv.Index(k), k)
			}
		} else {
			one(fv, -1)
		}
	}
	return out
}

// allNodes lists root and everything below it, parents first.
func allNodes(root a.Node) []a.Node {
	var out []a.Node
	stack := []a.Node{root}
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		out = append(out, n)
		cs := children(n)
		for i := len(cs) - 1; i >= 0; i-- {
			stack = append(stack, cs[i].node)
		}
	}
	return out
}

// pairs walks two equal trees in parallel.
func pairs(x, y a.Node, f func(x, y a.Node)) {
	f(x, y)
	cx, cy := children(x), children(y)
	if len(cx) != len(cy) {
		panic("pairs: trees differ")
	}
	for i := range cx {
		pairs(cx[i].node, cy[i].node, f)
	}
}

// copyTree makes a deep copy that shares nothing with x.
func copyTree(x a.Node) a.Node {
	return copyVal(reflect.ValueOf(x)).Interface().(a.Node)
}

func copyVal(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(v.Elem()) // unexported marker fields too
		e := v.Elem()
		if e.Kind() == reflect.Struct {
			if e.Type() == timeType {
				return n
			}
			for i := 0; i < e.NumField(); i++ {
				if exported(e.Type().Field(i)) {
					n.Elem().Field(i).Set(copyVal(e.Field(i)))
				}
			}
		}
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(copyVal(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(copyVal(v.Index(i)))
		}
		return n
	}
	return v
}

func typeName(n interface{}) string {
	return strings.TrimPrefix(fmt.Sprintf("%T", n), "*sqlast.")
}

// dump renders a tree compactly without positions.
func dump(n interface{}) string {
	var b strings.Builder
	dumpVal(&b, reflect.ValueOf(n))
	s := b.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func dumpVal(b *strings.Builder, v reflect.Value) {
	if b.Len() > 5000 {
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dumpVal(b, v.Elem())
	case reflect.Slice:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			dumpVal(b, v.Index(i))
		}
		b.WriteString("]")
	case reflect.Struct:
		if v.Type() == timeType {
			fmt.Fprint(b, v.Interface())
			return
		}
		b.WriteString(v.Type().Name() + "{")
		sep := ""
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if !exported(f) || f.Type == posType {
				continue
			}
			fv := v.Field(i)
			if fv.IsZero() {
				continue
			}
			b.WriteString(sep + f.Name + ": ")
			sep = ", "
			dumpVal(b, fv)
		}
		b.WriteString("}")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		fmt.Fprintf(b, "%v", v.Interface())
	}
}
