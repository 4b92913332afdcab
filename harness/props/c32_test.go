package props

import (
	"fmt"
	"math/big"
	"strings"
	"testing"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
	"pgregory.net/rapid"
	"verif/harness/vk"
)

var xoperators = map[string]data.ExpressionOperatorTypeEnum{
	"*": data.ExpressionOperatorType.Multiply, "/": data.ExpressionOperatorType.Divide, "%": data.ExpressionOperatorType.Modulus,
	"+": data.ExpressionOperatorType.Add, "-": data.ExpressionOperatorType.Subtract, "<<": data.ExpressionOperatorType.BitShiftLeft,
	">>": data.ExpressionOperatorType.BitShiftRight, "&": data.ExpressionOperatorType.BitwiseAnd, "|": data.ExpressionOperatorType.BitwiseOr,
	"^": data.ExpressionOperatorType.BitwiseXor, "<": data.ExpressionOperatorType.LessThan, "<=": data.ExpressionOperatorType.LessThanOrEqual,
	">": data.ExpressionOperatorType.GreaterThan, ">=": data.ExpressionOperatorType.GreaterThanOrEqual, "=": data.ExpressionOperatorType.Equal,
	"===": data.ExpressionOperatorType.EqualExactMatch, "<>": data.ExpressionOperatorType.NotEqual, "!==": data.ExpressionOperatorType.NotEqualExactMatch,
	"is null": data.ExpressionOperatorType.IsNull, "is not null": data.ExpressionOperatorType.IsNotNull, "like": data.ExpressionOperatorType.Like,
	"like exact": data.ExpressionOperatorType.LikeExactMatch, "not like": data.ExpressionOperatorType.NotLike,
	"not like exact": data.ExpressionOperatorType.NotLikeExactMatch, "and": data.ExpressionOperatorType.And, "or": data.ExpressionOperatorType.Or,
}

var xfunctions = map[string]data.ExpressionFunctionTypeEnum{
	"Abs": data.ExpressionFunctionType.Abs, "Ceiling": data.ExpressionFunctionType.Ceiling, "Coalesce": data.ExpressionFunctionType.Coalesce,
	"Convert": data.ExpressionFunctionType.Convert, "Contains": data.ExpressionFunctionType.Contains, "DateAdd": data.ExpressionFunctionType.DateAdd,
	"DateDiff": data.ExpressionFunctionType.DateDiff, "DatePart": data.ExpressionFunctionType.DatePart, "EndsWith": data.ExpressionFunctionType.EndsWith,
	"Floor": data.ExpressionFunctionType.Floor, "IIf": data.ExpressionFunctionType.IIf, "IndexOf": data.ExpressionFunctionType.IndexOf,
	"IsDate": data.ExpressionFunctionType.IsDate, "IsInteger": data.ExpressionFunctionType.IsInteger, "IsGuid": data.ExpressionFunctionType.IsGuid,
	"IsNull": data.ExpressionFunctionType.IsNull, "IsNumeric": data.ExpressionFunctionType.IsNumeric, "LastIndexOf": data.ExpressionFunctionType.LastIndexOf,
	"Len": data.ExpressionFunctionType.Len, "Lower": data.ExpressionFunctionType.Lower, "MaxOf": data.ExpressionFunctionType.MaxOf,
	"MinOf": data.ExpressionFunctionType.MinOf, "Now": data.ExpressionFunctionType.Now, "NthIndexOf": data.ExpressionFunctionType.NthIndexOf,
	"Power": data.ExpressionFunctionType.Power, "RegExMatch": data.ExpressionFunctionType.RegExMatch, "RegExVal": data.ExpressionFunctionType.RegExVal,
	"Replace": data.ExpressionFunctionType.Replace, "Reverse": data.ExpressionFunctionType.Reverse, "Round": data.ExpressionFunctionType.Round,
	"Split": data.ExpressionFunctionType.Split, "Sqrt": data.ExpressionFunctionType.Sqrt, "StartsWith": data.ExpressionFunctionType.StartsWith,
	"StrCount": data.ExpressionFunctionType.StrCount, "StrCmp": data.ExpressionFunctionType.StrCmp, "SubStr": data.ExpressionFunctionType.SubStr,
	"Trim": data.ExpressionFunctionType.Trim, "TrimLeft": data.ExpressionFunctionType.TrimLeft, "TrimRight": data.ExpressionFunctionType.TrimRight,
	"Upper": data.ExpressionFunctionType.Upper, "UtcNow": data.ExpressionFunctionType.UtcNow,
}

var xunaries = map[string]data.ExpressionUnaryTypeEnum{
	"+": data.ExpressionUnaryType.Plus, "-": data.ExpressionUnaryType.Minus, "not": data.ExpressionUnaryType.Not,
}

// opName is the name of the operator of a node.
func (n xnode) opName() string {
	switch n.K {
	case "isnull":
		if n.Not {
			return "is not null"
		}
		return "is null"
	case "like":
		s := "like"
		if n.Not {
			s = "not like"
		}
		if n.Exact {
			s += " exact"
		}
		return s
	}
	return n.S
}

// goLiteral is a value in the form the library stores it.
func goLiteral(v xv) any {
	if v.Null {
		return nil
	}
	switch v.T {
	case xInt32:
		return int32(v.V.(int64))
	case xDec:
		d, _ := decimal.NewFromString(ratText(v.V.(*big.Rat)))
		return d
	}
	return v.V
}

// build assembles an expression by hand.
func (n xnode) build(dt *data.DataTable) data.Expression {
	var kids []data.Expression
	for _, k := range n.Kids {
		kids = append(kids, k.build(dt))
	}
	switch n.K {
	case "null":
		return data.NullValue(data.ExpressionValueType.Undefined)
	case "lit":
		v := litValue(n).xv
		return data.NewValueExpression(data.ExpressionValueTypeEnum(v.T), goLiteral(v))
	case "col":
		return data.NewColumnExpression(dt.ColumnByName(n.S))
	case "un":
		return data.NewUnaryExpression(xunaries[n.S], kids[0])
	case "in":
		return data.NewInListExpression(kids[0], kids[1:], n.Not, n.Exact)
	case "fn":
		return data.NewFunctionExpression(xfunctions[n.S], kids)
	case "isnull":
		return data.NewOperatorExpression(xoperators[n.opName()], kids[0], nil)
	}
	return data.NewOperatorExpression(xoperators[n.opName()], kids[0], kids[1])
}

// isKind checks that exactly one of the accessors accepts the expression.
func isKind(x data.Expression, want data.ExpressionTypeEnum) error {
	if x.Type() != want {
		return fmt.Errorf("has type %v, expected %v", x.Type(), want)
	}
	type result struct {
		of  data.ExpressionTypeEnum
		got data.Expression
		err error
	}
	var all []result
	add := func(of data.ExpressionTypeEnum, got data.Expression, err error) {
		all = append(all, result{of, got, err})
	}
	v, err := data.GetValueExpression(x)
	add(data.ExpressionType.Value, v, err)
	u, err := data.GetUnaryExpression(x)
	add(data.ExpressionType.Unary, u, err)
	c, err := data.GetColumnExpression(x)
	add(data.ExpressionType.Column, c, err)
	l, err := data.GetInListExpression(x)
	add(data.ExpressionType.InList, l, err)
	f, err := data.GetFunctionExpression(x)
	add(data.ExpressionType.Function, f, err)
	o, err := data.GetOperatorExpression(x)
	add(data.ExpressionType.Operator, o, err)
	for _, r := range all {
		if r.of == want && (r.err != nil || r.got != x) {
			return fmt.Errorf("of type %v read as one gives %v, %v", want, r.got, r.err)
		}
		if r.of != want && r.err == nil {
			return fmt.Errorf("of type %v can be read as %v", want, r.of)
		}
	}
	return nil
}

// mirrors checks that an expression has the shape of the tree; dt is the table its columns belong to.
func (n xnode) mirrors(x data.Expression, dt *data.DataTable) error {
	if x == nil {
		return fmt.Errorf("%s: there is no expression", n.text())
	}
	fail := func(format string, args ...any) error {
		return fmt.Errorf("%s: expression %s", n.text(), fmt.Sprintf(format, args...))
	}
	kids := func(got ...data.Expression) error {
		if len(got) != len(n.Kids) {
			return fail("has %d operands or arguments, expected %d", len(got), len(n.Kids))
		}
		for i, k := range n.Kids {
			if err := k.mirrors(got[i], dt); err != nil {
				return err
			}
		}
		return nil
	}
	want := data.ExpressionType.Operator
	switch n.K {
	case "null", "lit":
		want = data.ExpressionType.Value
	case "col":
		want = data.ExpressionType.Column
	case "un":
		want = data.ExpressionType.Unary
	case "in":
		want = data.ExpressionType.InList
	case "fn":
		want = data.ExpressionType.Function
	}
	if err := isKind(x, want); err != nil {
		return fail("%v", err)
	}
	switch x := x.(type) {
	case *data.ValueExpression:
		if n.K == "null" {
			if !x.IsNull() || x.Value() != nil {
				return fail("is %v, expected null", x)
			}
			return nil
		}
		if err := litValue(n).match(x, nil); err != nil {
			return fail("%v", err)
		}
	case *data.ColumnExpression:
		if col := dt.ColumnByName(n.S); x.DataColumn() != col || col == nil {
			return fail("refers to %v, expected %v of %s", x.DataColumn(), col, dt.Name())
		}
	case *data.UnaryExpression:
		if x.UnaryType() != xunaries[n.S] {
			return fail("has operator %v", x.UnaryType())
		}
		return kids(x.Value())
	case *data.InListExpression:
		if x.HasNotKeyword() != n.Not || x.ExtactMatch() != n.Exact {
			return fail("has not=%v exact=%v, expected %v %v", x.HasNotKeyword(), x.ExtactMatch(), n.Not, n.Exact)
		}
		return kids(append([]data.Expression{x.Value()}, x.Arguments()...)...)
	case *data.FunctionExpression:
		if x.FunctionType() != xfunctions[n.S] {
			return fail("calls %v", x.FunctionType())
		}
		return kids(x.Arguments()...)
	case *data.OperatorExpression:
		if x.OperatorType() != xoperators[n.opName()] {
			return fail("has operator %v", x.OperatorType())
		}
		if n.K == "isnull" {
			return kids(x.LeftValue())
		}
		return kids(x.LeftValue(), x.RightValue())
	}
	return nil
}

// c32Case is a list of statements over two tables of the same columns.
type c32Case struct {
	Stmts []c21Stmt
	Rows  [][]cell
	Mode  int
}

func execC32Parsed(c c32Case, o *vk.Obs) error {
	ds := data.NewDataSet()
	main, err := tableSpec{Name: c21Main, Cols: xcols, Rows: c.Rows}.build(ds)
	if err != nil {
		return err
	}
	other, err := tableSpec{Name: c21Other, Cols: xcols, Rows: c.Rows}.build(ds)
	if err != nil {
		return err
	}
	var texts []string
	for _, s := range c.Stmts {
		texts = append(texts, s.text())
	}
	text := strings.Join(texts, pick([]string{"; ", ";", " ;\n"}, c.Mode)) + pick([]string{"", "", ";"}, c.Mode/2)
	var trees []*data.ExpressionTree
	switch c.Mode % 5 {
	case 0, 1:
		trees, err = data.GenerateExpressionTrees(ds, c21Main, text, true)
	case 2, 3:
		trees, err = data.GenerateExpressionTreesFromTable(main, text, true)
	case 4:
		var tree *data.ExpressionTree
		if tree, err = data.GenerateExpressionTree(main, text, true); err == nil {
			trees = append(trees, tree)
			c.Stmts = c.Stmts[:1]
		}
	}
	if err != nil {
		return fmt.Errorf("%s is rejected: %v", text, err)
	}
	if len(trees) != len(c.Stmts) {
		return fmt.Errorf("%d statements give %d trees: %s", len(c.Stmts), len(trees), text)
	}
	verify := func() error {
		for i, s := range c.Stmts {
			tree := trees[i]
			name, dt, root := "", main, s.Cond
			switch s.Kind {
			case "filter":
				name = s.table()
				if s.Other {
					dt = other
				}
			case "id":
				root = xnode{K: "lit", T: xGuid, S: s.Name}
			}
			if !strings.EqualFold(tree.TableName, name) {
				return fmt.Errorf("%s names table %q, expected %q", s.text(), tree.TableName, name)
			}
			if tree.TopLimit != s.N {
				return fmt.Errorf("%s has limit %d, expected %d", s.text(), tree.TopLimit, s.N)
			}
			if len(tree.OrderByTerms) != len(s.Order) {
				return fmt.Errorf("%s has %d ordering terms, expected %d", s.text(), len(tree.OrderByTerms), len(s.Order))
			}
			for k, want := range s.Order {
				got := tree.OrderByTerms[k]
				if got.Column == nil || got.Column != dt.ColumnByName(want.Col) || got.Ascending == want.Desc || got.ExactMatch != want.Exact {
					return fmt.Errorf("%s has ordering term %d %+v, expected %+v of %s", s.text(), k, got, want, dt.Name())
				}
			}
			if err := root.mirrors(tree.Root, dt); err != nil {
				return err
			}
		}
		return nil
	}
	if err := verify(); err != nil {
		return err
	}
	// evaluating leaves the trees as they are
	for i, tree := range trees {
		dt := main
		if c.Stmts[i].Other {
			dt = other
		}
		for k := 0; k < dt.RowCount(); k++ {
			tree.Evaluate(dt.Row(k))
		}
		tree.Select(dt)
	}
	if err := verify(); err != nil {
		return fmt.Errorf("after evaluation, %v", err)
	}
	for _, s := range c.Stmts {
		o.Label("statement: %s", s.Kind)
		s.Cond.has(func(n xnode) bool {
			if n.K != "" {
				o.Label("node: %s %s", n.K, n.opName())
			}
			return false
		})
		if s.Cond.size() > 2 {
			o.NonTrivial()
		}
	}
	return nil
}

func genC32(t *rapid.T) (c c32Case) {
	g := &xgen{t: t, ops: true, cols: true, nulls: rapid.IntRange(0, 2).Draw(t, "nulls") == 0, fns: rapid.Bool().Draw(t, "fns"), chaos: rapid.SampledFrom([]int{0, 10}).Draw(t, "chaos")}
	c.Mode = rapid.IntRange(0, 59).Draw(t, "mode")
	var conds []xnode
	for i := rapid.SampledFrom([]int{1, 1, 2, 2, 3, 4}).Draw(t, "stmts"); i > 0; i-- {
		s := c21Stmt{N: -1, Alt: rapid.IntRange(0, 23).Draw(t, "alt")}
		s.Kind = rapid.SampledFrom([]string{"filter", "filter", "expr", "expr", "expr", "expr", "id"}).Draw(t, "kind")
		switch s.Kind {
		case "id":
			s.Name = genGUIDText(t)
		case "expr":
			s.Cond = g.expr(g.anyType(), rapid.IntRange(1, 3).Draw(t, "depth"))
		case "filter":
			s.Cond = g.expr(rapid.SampledFrom([]int{xBool, xBool, xBool, xInt32, xStr}).Draw(t, "type"), rapid.IntRange(1, 3).Draw(t, "depth"))
			s.Other = rapid.Bool().Draw(t, "other")
			if rapid.Bool().Draw(t, "top") {
				s.N = rapid.OneOf(rapid.SampledFrom([]int{-1, 0, 1, 2147483647}), rapid.IntRange(-9, 100000)).Draw(t, "n")
				s.Top = fmt.Sprint(s.N)
				if s.N > 0 && rapid.IntRange(0, 5).Draw(t, "plus") == 0 {
					s.Top = "+" + s.Top
				}
			}
			for k := rapid.SampledFrom([]int{0, 1, 1, 2, 3, 5}).Draw(t, "terms"); k > 0; k-- {
				s.Order = append(s.Order, c21Term{
					Col:   xcols[rapid.IntRange(0, len(xcols)-1).Draw(t, "col")].Name,
					Desc:  rapid.Bool().Draw(t, "desc"),
					Exact: rapid.Bool().Draw(t, "exact"),
					Alt:   rapid.IntRange(0, 23).Draw(t, "alt"),
				})
			}
		}
		if s.Kind != "id" {
			conds = append(conds, s.Cond)
		}
		c.Stmts = append(c.Stmts, s)
	}
	c.Rows = genXRows(t, conds, true, 3)
	return
}

// c32Built is a set of trees assembled by hand.
type c32Built struct {
	xcase
	Top int
}

func execC32Built(c c32Built, o *vk.Obs) error {
	_, dt, err := c.table("Rows")
	if err != nil {
		return err
	}
	for _, expr := range c.Exprs {
		tree := data.NewExpressionTree()
		if tree.TopLimit != -1 || tree.TableName != "" || len(tree.OrderByTerms) != 0 || tree.Root != nil {
			return fmt.Errorf("a new tree is %+v", tree)
		}
		tree.Root = expr.build(dt)
		if err := expr.mirrors(tree.Root, dt); err != nil {
			return fmt.Errorf("built by hand, %v", err)
		}
		defined, boolean := true, true
		var hits []int
		for i, row := range c.Rows {
			want := rowEnv(row).eval1(expr, -1)
			got, err := tree.Evaluate(dt.Row(i))
			if e := want.match(got, err); e != nil {
				return fmt.Errorf("built by hand, %s %v (row %d)", expr.text(), e, i)
			}
			if want.bad() || want.NoType {
				defined = false
				continue
			}
			boolean = boolean && want.T == xBool
			if want.truth() {
				hits = append(hits, i)
			}
			if expr.size() > 1 {
				o.NonTrivial()
				o.Label("result: %s", xtNames[want.T])
			}
		}
		if expr.K == "col" { // it has no value without a row
			if got, err := tree.Evaluate(nil); err == nil {
				return fmt.Errorf("without a row, %s gives %v", expr.text(), got)
			}
			o.Label("without a row")
		}
		if !defined || !boolean {
			continue
		}
		if c.Top >= 0 && len(hits) > c.Top {
			hits = hits[:c.Top]
		}
		tree.TopLimit = c.Top
		rows, err := tree.Select(dt)
		if err != nil {
			return fmt.Errorf("built by hand, %s selects nothing: %v", expr.text(), err)
		}
		var want []*data.DataRow
		for _, i := range hits {
			want = append(want, dt.Row(i))
		}
		if err := sameRows(rows, want); err != nil {
			return fmt.Errorf("built by hand, %s with limit %d: %v", expr.text(), c.Top, err)
		}
		o.Label("selected %d", len(rows))
	}
	return nil
}

// c32Value is a value on its own.
type c32Value struct {
	T   int
	Lit xnode
}

func execC32Value(c c32Value, o *vk.Obs) error {
	v := xv{T: c.T, Null: true}
	if c.Lit.K == "lit" {
		v = litValue(c.Lit).xv
	} else if c.Lit.K == "un" {
		v = (&xenv{}).eval1(c.Lit, -1).xv
	}
	x := data.NewValueExpression(data.ExpressionValueTypeEnum(v.T), goLiteral(v))
	if v.Null {
		x = data.NullValue(data.ExpressionValueTypeEnum(v.T))
	}
	if err := isKind(x, data.ExpressionType.Value); err != nil {
		return fmt.Errorf("%v %v", v, err)
	}
	if int(x.ValueType()) != v.T || x.IsNull() != v.Null || v.Null != (x.Value() == nil) {
		return fmt.Errorf("%v reads as type %v, null %v, value %v", v, x.ValueType(), x.IsNull(), x.Value())
	}
	// only the accessor of its own type accepts it; a null reads as the zero value
	zero := []any{false, int64(0), int64(0), new(big.Rat), 0.0, "", guid.Guid{}, time.Time{}}
	for t := xBool; t <= xTime; t++ {
		var got any
		var err error
		switch t {
		case xBool:
			got, err = x.BooleanValue()
		case xInt32:
			var n int32
			n, err = x.Int32Value()
			got = int64(n)
		case xInt64:
			got, err = x.Int64Value()
		case xDec:
			var d decimal.Decimal
			d, err = x.DecimalValue()
			got = d.Rat()
		case xDbl:
			got, err = x.DoubleValue()
		case xStr:
			got, err = x.StringValue()
		case xGuid:
			got, err = x.GuidValue()
		case xTime:
			got, err = x.DateTimeValue()
		}
		want := v.V
		if v.Null || t != v.T {
			want = zero[t]
		}
		if (err == nil) != (t == v.T) || !sameX(xv{T: t, V: got}, xv{T: t, V: want}) {
			return fmt.Errorf("%v read as %s gives %v, %v", v, xtNames[t], got, err)
		}
		// conversion
		res, err := x.Convert(data.ExpressionValueTypeEnum(t))
		if e := xconv(v, t).match(res, err); e != nil {
			return fmt.Errorf("%v converted to %s %v", v, xtNames[t], e)
		}
	}
	if !v.Null {
		o.NonTrivial()
		if want := xconv(v, xStr); !want.bad() && x.String() != want.V.(string) {
			return fmt.Errorf("%v prints as %q, expected %q", v, x.String(), want.V)
		}
	}
	o.Label("%s null=%v", xtNames[v.T], v.Null)
	return nil
}

func TestC32(t *testing.T) {
	vk.Run(t, vk.Spec[c32Case]{
		ID: "C32", Name: "parsed", Rule: "1-4 statements (expressions, FILTER statements on two tables with limits and ordering, GUIDs) parsed to trees that are walked before and after evaluation; non-trivial: an expression of three or more nodes",
		Quick: 8000, Deep: 150000, Exec: execC32Parsed, Gen: genC32,
	})
	vk.Run(t, vk.Spec[c32Built]{
		ID: "C32", Name: "built", Rule: "expression trees assembled from constructors, evaluated and used to select rows; non-trivial: an expression of two or more nodes with a defined value",
		Quick: 10000, Deep: 200000, Exec: execC32Built,
		Gen: func(t *rapid.T) (c c32Built) {
			nulls := rapid.Bool().Draw(t, "nulls")
			g := &xgen{t: t, ops: true, cols: true, nulls: nulls, fns: rapid.Bool().Draw(t, "fns"), chaos: rapid.SampledFrom([]int{0, 5}).Draw(t, "chaos")}
			boolean := rapid.Bool().Draw(t, "boolean")
			c.xcase = genXCase(t, 3, 6, nulls, func() xnode {
				typ := xBool
				if !boolean {
					typ = g.anyType()
				}
				return g.expr(typ, rapid.IntRange(1, 3).Draw(t, "depth"))
			})
			c.Top = rapid.IntRange(-1, 4).Draw(t, "top")
			return
		},
	})
	vk.Run(t, vk.Spec[c32Value]{
		ID: "C32", Name: "values", Rule: "values of every type and nulls, read through every accessor and converted to every type; non-trivial: not null",
		Quick: 20000, Deep: 400000, Exec: execC32Value,
		Gen: func(t *rapid.T) (c c32Value) {
			g := &xgen{t: t}
			c.T = g.anyType()
			if g.n(0, 9, "null") == 0 {
				return
			}
			c.Lit = g.lit(c.T)
			if c.T != xBool && c.T <= xDbl && g.n(0, 2, "negative") == 0 {
				c.Lit = xnode{K: "un", S: "-", Kids: []xnode{c.Lit}}
			}
			return
		},
	})
}
