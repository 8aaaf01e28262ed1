package main

// Trees built by hand from any node type, including those the parser never
// builds. Which fields may be missing, and which values enumerations take, is
// learned from the trees the generator of the supported grammar makes.

import (
	"math/rand"
	"reflect"
	"strings"
	"time"

	a "github.com/akito0107/xsqlparser/sqlast"
)

var allTypes = []interface{}{
	&a.File{}, &a.Ident{}, &a.Wildcard{}, &a.QualifiedWildcard{}, &a.CompoundIdent{}, &a.IsNull{}, &a.IsNotNull{}, &a.InList{}, &a.InSubQuery{},
	&a.Between{}, &a.BinaryExpr{}, &a.Cast{}, &a.Nested{}, &a.UnaryExpr{}, &a.Function{}, &a.CaseExpr{}, &a.Exists{}, &a.SubQuery{}, &a.ObjectName{},
	&a.WindowSpec{}, &a.WindowFrame{}, &a.WindowFrameUnit{}, &a.CurrentRow{}, &a.UnboundedPreceding{}, &a.UnboundedFollowing{}, &a.Preceding{}, &a.Following{},
	&a.Operator{}, &a.QueryStmt{}, &a.CTE{}, &a.SelectExpr{}, &a.QueryExpr{}, &a.SetOperationExpr{}, &a.UnionOperator{}, &a.ExceptOperator{}, &a.IntersectOperator{},
	&a.SQLSelect{}, &a.Table{}, &a.Derived{}, &a.UnnamedSelectItem{}, &a.AliasSelectItem{}, &a.QualifiedWildcardSelectItem{}, &a.WildcardSelectItem{},
	&a.CrossJoin{}, &a.TableJoinElement{}, &a.PartitionedJoinTable{}, &a.QualifiedJoin{}, &a.NaturalJoin{}, &a.NamedColumnsJoin{}, &a.JoinCondition{}, &a.JoinType{},
	&a.OrderByExpr{}, &a.LimitExpr{}, &a.InsertStmt{}, &a.SubQuerySource{}, &a.ConstructorSource{}, &a.RowValueExpr{}, &a.CopyStmt{}, &a.UpdateStmt{}, &a.DeleteStmt{},
	&a.CreateViewStmt{}, &a.CreateTableStmt{}, &a.Assignment{}, &a.TableConstraint{}, &a.UniqueTableConstraint{}, &a.ReferentialTableConstraint{}, &a.ReferenceKeyExpr{},
	&a.CheckTableConstraint{}, &a.ColumnDef{}, &a.AutoIncrement{}, &a.ColumnConstraint{}, &a.NotNullColumnSpec{}, &a.UniqueColumnSpec{}, &a.ReferencesColumnSpec{},
	&a.CheckColumnSpec{}, &a.AlterTableStmt{}, &a.AddColumnTableAction{}, &a.AlterColumnTableAction{}, &a.SetDefaultColumnAction{}, &a.DropDefaultColumnAction{},
	&a.PGAlterDataTypeColumnAction{}, &a.PGSetNotNullColumnAction{}, &a.PGDropNotNullColumnAction{}, &a.RemoveColumnTableAction{}, &a.AddConstraintTableAction{},
	&a.DropConstraintTableAction{}, &a.DropTableStmt{}, &a.CreateIndexStmt{}, &a.DropIndexStmt{}, &a.ExplainStmt{}, &a.MyEngine{}, &a.MyCharset{},
	&a.CharType{}, &a.VarcharType{}, &a.UUID{}, &a.Clob{}, &a.Binary{}, &a.Varbinary{}, &a.Blob{}, &a.Decimal{}, &a.Float{}, &a.SmallInt{}, &a.Int{}, &a.BigInt{},
	&a.Real{}, &a.Double{}, &a.Boolean{}, &a.Date{}, &a.Time{}, &a.Timestamp{}, &a.Regclass{}, &a.Text{}, &a.Bytea{}, &a.Array{}, &a.Custom{},
	&a.LongValue{}, &a.DoubleValue{}, &a.SingleQuotedString{}, &a.NationalStringLiteral{}, &a.BooleanValue{}, &a.DateValue{}, &a.TimeValue{}, &a.DateTimeValue{},
	&a.TimestampValue{}, &a.NullValue{},
}

type impls struct{ all, leaves []reflect.Type }

var implCache = map[reflect.Type]*impls{}

var leafTypes = map[reflect.Type]bool{}

type learned struct {
	nilField map[string]bool          // Type.Field
	enum     map[reflect.Type][]int64 // values seen
	enumSet  map[reflect.Type]map[int64]bool
}

func learn(seed int64, n int) *learned {
	l := &learned{map[string]bool{}, map[reflect.Type][]int64{}, map[reflect.Type]map[int64]bool{}}
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(seed + int64(i)))
		g := &exprGen{newG(r, dials[i%3], 4+r.Intn(60)), castForms{}}
		for _, x := range allNodes(g.stmt(1 + r.Intn(4))) {
			l.see(x)
		}
	}
	return l
}

func (l *learned) see(x a.Node) {
	v := reflect.ValueOf(x).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !exported(f) {
			continue
		}
		switch fv := v.Field(i); fv.Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Slice:
			if fv.IsNil() || fv.Kind() == reflect.Slice && fv.Len() == 0 {
				l.nilField[v.Type().Name()+"."+f.Name] = true
			}
		case reflect.Int:
			if f.Type.Name() != "int" {
				if l.enumSet[f.Type] == nil {
					l.enumSet[f.Type] = map[int64]bool{}
				}
				if !l.enumSet[f.Type][fv.Int()] {
					l.enumSet[f.Type][fv.Int()] = true
					l.enum[f.Type] = append(l.enum[f.Type], fv.Int())
				}
			}
		}
	}
}

// treeGen builds random trees of any node type.
type treeGen struct {
	*exprGen
	l      *learned
	budget int
}

var anyTexts = []string{"a", "x1", "\"q\"\"r\"", "`b`", "[c d]", "世界", "", "'", "é\n", "*/", "very_long_identifier_name_that_fills_a_buffer_of_some_size"}

func (t *treeGen) node(ty reflect.Type, depth int) reflect.Value {
	v := reflect.New(ty.Elem())
	e := v.Elem()
	name := ty.Elem().Name()
	for i := 0; i < e.NumField(); i++ {
		f := e.Type().Field(i)
		if !exported(f) || f.Type == posType {
			continue
		}
		if t.l.nilField[name+"."+f.Name] && t.p(0.35) {
			continue
		}
		e.Field(i).Set(t.value(f.Type, depth, name+"."+f.Name))
	}
	if c, ok := v.Interface().(*a.CaseExpr); ok {
		n := min(len(c.Conditions), len(c.Results))
		c.Conditions, c.Results = c.Conditions[:n:n], c.Results[:n:n]
	}
	if c, ok := v.Interface().(*a.CopyStmt); ok && len(c.Values) > 1 && t.n(2) == 0 {
		c.Values[t.n(len(c.Values))] = nil
	}
	if c, ok := v.Interface().(*a.LimitExpr); ok {
		if c.All {
			c.LimitValue = nil
		} else if c.LimitValue == nil {
			c.LimitValue = &a.LongValue{Long: 7}
		}
	}
	return v
}

func (t *treeGen) value(ty reflect.Type, depth int, path string) reflect.Value {
	switch ty.Kind() {
	case reflect.Ptr:
		if ty.Elem().Kind() == reflect.Struct && ty.Implements(nodeType) {
			return t.node(ty, depth-1)
		}
		v := reflect.New(ty.Elem())
		v.Elem().Set(t.value(ty.Elem(), depth, path))
		return v
	case reflect.Interface:
		v := reflect.New(ty).Elem()
		v.Set(t.impl(ty, depth))
		return v
	case reflect.Slice:
		if ty.Elem() == cgType || ty.Elem().Kind() == reflect.Ptr && !ty.Elem().Implements(nodeType) && ty.Elem().Elem().Kind() == reflect.Struct {
			return reflect.Zero(ty)
		}
		n := 1 + t.n(3)
		if depth <= 0 {
			n = 1
		}
		v := reflect.MakeSlice(ty, n, n+t.n(3))
		for i := 0; i < n; i++ {
			v.Index(i).Set(t.value(ty.Elem(), depth-1, path))
		}
		return v
	case reflect.Struct:
		if ty == timeType {
			return reflect.ValueOf(time.Date(1+t.n(9999), time.Month(1+t.n(12)), 1+t.n(28), t.n(24), t.n(60), t.n(60), t.n(1e9), time.UTC))
		}
		return reflect.Zero(ty)
	case reflect.String:
		s := anyTexts[t.n(len(anyTexts))]
		if strings.HasPrefix(path, "Operator.") || strings.HasSuffix(path, "Type") {
			s = ""
		}
		return reflect.ValueOf(s).Convert(ty)
	case reflect.Bool:
		return reflect.ValueOf(t.n(2) == 0).Convert(ty)
	case reflect.Int:
		if l := t.l.enum[ty]; len(l) > 0 {
			return reflect.ValueOf(l[t.n(len(l))]).Convert(ty)
		}
		return reflect.ValueOf(t.n(1000)).Convert(ty)
	case reflect.Int64:
		return reflect.ValueOf(t.long()).Convert(ty)
	case reflect.Uint, reflect.Uint64:
		return reflect.ValueOf(uint(t.n(70000))).Convert(ty)
	case reflect.Float64:
		return reflect.ValueOf(t.double()).Convert(ty)
	}
	return reflect.Zero(ty)
}

// impl builds a node of some type that implements ty.
func (t *treeGen) impl(ty reflect.Type, depth int) reflect.Value {
	t.budget--
	im, ok := implCache[ty]
	if !ok {
		im = &impls{}
		for _, x := range allTypes {
			xt := reflect.TypeOf(x)
			if !xt.Implements(ty) || xt == reflect.TypeOf(&a.File{}) {
				continue
			}
			im.all = append(im.all, xt)
			if isLeaf(xt) {
				im.leaves = append(im.leaves, xt)
			}
		}
		implCache[ty] = im
	}
	c, leaves := im.all, im.leaves
	if (depth <= 0 || t.budget <= 0) && len(leaves) > 0 {
		c = leaves
	}
	if len(c) == 0 {
		return reflect.Zero(ty)
	}
	if depth < -6 { // cannot get small by itself: the first implementer is the simplest
		return t.node(simplest(ty, c), depth-1)
	}
	return t.node(c[t.n(len(c))], depth-1)
}

func isLeaf(t reflect.Type) bool {
	v, ok := leafTypes[t]
	if ok {
		return v
	}
	v = true
	for i := 0; i < t.Elem().NumField(); i++ {
		f := t.Elem().Field(i)
		ft := f.Type
		if ft.Kind() == reflect.Slice {
			ft = ft.Elem()
		}
		if exported(f) && ft.Implements(nodeType) && ft != reflect.TypeOf(&a.Ident{}) {
			v = false
		}
	}
	leafTypes[t] = v
	return v
}

func simplest(ty reflect.Type, c []reflect.Type) reflect.Type {
	for _, pref := range []interface{}{&a.SQLSelect{}, &a.Table{}, &a.TableJoinElement{}, &a.UnnamedSelectItem{}, &a.DropTableStmt{}} {
		for _, x := range c {
			if x == reflect.TypeOf(pref) {
				return x
			}
		}
	}
	return c[0]
}

// randomTree builds a tree whose root is of the i-th node type.
func (l *learned) randomTree(r *rand.Rand, i int, depth int) a.Node {
	t := &treeGen{&exprGen{newG(r, dials[i%3], 20), castForms{}}, l, 30}
	return t.node(reflect.TypeOf(allTypes[i%len(allTypes)]), depth).Interface().(a.Node)
}
