package props

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
	"pgregory.net/rapid"
	"verif/harness/vk"
)

// field is the expected content of a column in a row.
type field struct {
	v      any // nil when null
	err    bool
	unspec bool
	approx bool
}

var wholeText = regexp.MustCompile(`^[+-]?(0|[1-9]\d*)$`)

// xfield converts an expression value to the type of a computed column.
func xfield(o xout, typ int) field {
	switch {
	case o.Unspec:
		return field{unspec: true}
	case o.Err:
		return field{err: true}
	case o.Null:
		return field{}
	}
	integer := func(n *big.Int) field {
		bits := []uint{8, 16, 32, 64, 8, 16, 32, 64}[typ-tInt8]
		if typ <= tInt64 {
			if n.IsInt64() && n.Int64() == n.Int64()<<(64-bits)>>(64-bits) {
				v, _ := goValue(typ, n.String())
				return field{v: v}
			}
		} else if n.IsUint64() && n.Uint64() == n.Uint64()<<(64-bits)>>(64-bits) {
			v, _ := goValue(typ, n.String())
			return field{v: v}
		}
		return field{unspec: true} // does not fit
	}
	number := func(r *big.Rat, f float64) field {
		switch typ {
		case tBool:
			return field{v: r.Sign() != 0}
		case tSingle:
			return field{v: float32(f)}
		case tDouble:
			return field{v: f}
		case tDecimal:
			d, _ := decimal.NewFromString(ratText(r))
			return field{v: d}
		case tDateTime, tGuid:
			return field{err: true}
		}
		return integer(ratTrunc(r))
	}
	switch o.T {
	case xBool:
		n := boolInt(o.V.(bool))
		if typ == tString {
			return field{v: strconv.FormatBool(n == 1)}
		}
		return number(ratInt(n), float64(n))
	case xInt32, xInt64:
		n := o.V.(int64)
		if typ == tString {
			return field{v: strconv.FormatInt(n, 10)}
		}
		return number(ratInt(n), float64(n))
	case xDec:
		r := o.V.(*big.Rat)
		switch {
		case o.Approx && typ != tDouble && typ != tSingle && typ != tDecimal && typ != tDateTime && typ != tGuid:
			return field{unspec: true}
		case typ == tString:
			return field{v: ratText(r)}
		}
		f := number(r, ratFloat(r))
		f.approx = o.Approx
		return f
	case xDbl:
		f := o.V.(float64)
		finite := !math.IsNaN(f) && !math.IsInf(f, 0)
		switch typ {
		case tString:
			if math.Abs(f) > 1e15 {
				return field{unspec: true} // rounding shows
			}
			return field{v: strconv.FormatFloat(f, 'f', 6, 64), approx: true}
		case tBool:
			return field{v: f != 0}
		case tSingle:
			return field{v: float32(f), approx: true}
		case tDouble:
			return field{v: f, approx: true}
		case tDateTime, tGuid:
			return field{err: true}
		case tDecimal:
			if !finite {
				return field{err: true}
			}
			if math.Abs(f) > 1e25 {
				return field{unspec: true}
			}
			d, _ := decimal.NewFromString(strconv.FormatFloat(f, 'f', -1, 64))
			return field{v: d, approx: true}
		}
		if !finite || math.Abs(f) > 1e15 || f != math.Trunc(f) && math.Abs(f-math.Round(f)) < 1e-9 {
			return field{unspec: true}
		}
		return integer(ratTrunc(new(big.Rat).SetFloat64(f)))
	case xStr:
		s := o.V.(string)
		digits := strings.ContainsAny(s, "0123456789")
		switch typ {
		case tString:
			return field{v: s}
		case tBool:
			b, err := strconv.ParseBool(s)
			return field{v: b, err: err != nil}
		case tDateTime:
			if d, ok := parseDateText(s); ok {
				return field{v: d}
			}
			return field{err: s == "" || s == "hello", unspec: s != "" && s != "hello"}
		case tGuid:
			if v := xconv(o.xv, xGuid); !v.bad() {
				return field{v: v.V}
			}
			return field{err: len(s) < 32, unspec: len(s) >= 32}
		case tSingle, tDouble, tDecimal:
			if plainNumber.MatchString(s) {
				f, _ := strconv.ParseFloat(s, 64)
				return number(ratOf(s), f)
			}
			return field{err: !digits && !strings.ContainsAny(s, "nN"), unspec: digits || strings.ContainsAny(s, "nN")}
		}
		if wholeText.MatchString(s) {
			if strings.HasPrefix(s, "+") && typ >= tUInt8 {
				return field{unspec: true}
			}
			f := integer(new(big.Int).Set(ratOf(s).Num()))
			if f.unspec {
				return field{err: true}
			}
			return f
		}
		return field{err: !digits, unspec: digits}
	case xGuid:
		switch typ {
		case tString:
			return field{v: "{" + formatGUID(o.V.(guid.Guid)) + "}"}
		case tGuid:
			return field{v: o.V}
		}
		return field{err: true}
	}
	d := o.V.(time.Time)
	switch typ {
	case tString:
		return field{v: d.Format(xTimeFormat)}
	case tDateTime:
		return field{v: d}
	case tGuid:
		return field{err: true}
	}
	return number(ratInt(d.Unix()), float64(d.Unix()))
}

// fieldText is the documented text of a field.
func fieldText(v any) string {
	switch v := v.(type) {
	case nil:
		return "<NULL>"
	case time.Time:
		return v.Format(xTimeFormat)
	case float32:
		return strconv.FormatFloat(float64(v), 'f', 6, 64)
	case float64:
		return strconv.FormatFloat(v, 'f', 6, 64)
	case decimal.Decimal:
		return ratText(v.Rat())
	case guid.Guid:
		return "{" + formatGUID(v) + "}"
	}
	return fmt.Sprint(v)
}

// typed are the accessors by type of column.
var typed = []func(r *data.DataRow, index int, name string) [2]reading{
	func(r *data.DataRow, i int, n string) [2]reading {
		return both(read(r.StringValue(i)))(read(r.StringValueByName(n)))
	},
	func(r *data.DataRow, i int, n string) [2]reading {
		return both(read(r.BooleanValue(i)))(read(r.BooleanValueByName(n)))
	},
	func(r *data.DataRow, i int, n string) [2]reading {
		return both(read(r.DateTimeValue(i)))(read(r.DateTimeValueByName(n)))
	},
	func(r *data.DataRow, i int, n string) [2]reading {
		return both(read(r.SingleValue(i)))(read(r.SingleValueByName(n)))
	},
	func(r *data.DataRow, i int, n string) [2]reading {
		return both(read(r.DoubleValue(i)))(read(r.DoubleValueByName(n)))
	},
	func(r *data.DataRow, i int, n string) [2]reading {
		return both(read(r.DecimalValue(i)))(read(r.DecimalValueByName(n)))
	},
	func(r *data.DataRow, i int, n string) [2]reading {
		return both(read(r.GuidValue(i)))(read(r.GuidValueByName(n)))
	},
	func(r *data.DataRow, i int, n string) [2]reading {
		return both(read(r.Int8Value(i)))(read(r.Int8ValueByName(n)))
	},
	func(r *data.DataRow, i int, n string) [2]reading {
		return both(read(r.Int16Value(i)))(read(r.Int16ValueByName(n)))
	},
	func(r *data.DataRow, i int, n string) [2]reading {
		return both(read(r.Int32Value(i)))(read(r.Int32ValueByName(n)))
	},
	func(r *data.DataRow, i int, n string) [2]reading {
		return both(read(r.Int64Value(i)))(read(r.Int64ValueByName(n)))
	},
	func(r *data.DataRow, i int, n string) [2]reading {
		return both(read(r.UInt8Value(i)))(read(r.UInt8ValueByName(n)))
	},
	func(r *data.DataRow, i int, n string) [2]reading {
		return both(read(r.UInt16Value(i)))(read(r.UInt16ValueByName(n)))
	},
	func(r *data.DataRow, i int, n string) [2]reading {
		return both(read(r.UInt32Value(i)))(read(r.UInt32ValueByName(n)))
	},
	func(r *data.DataRow, i int, n string) [2]reading {
		return both(read(r.UInt64Value(i)))(read(r.UInt64ValueByName(n)))
	},
}

type reading struct {
	v    any
	null bool
	err  error
}

func read[T any](v T, null bool, err error) reading { return reading{v, null, err} }

func both(a reading) func(reading) [2]reading {
	return func(b reading) [2]reading { return [2]reading{a, b} }
}

// near compares values that rounding may change in the last digits.
func near(a, b any) bool {
	close := func(x, y, eps float64) bool {
		return x == y || x != x && y != y || math.Abs(x-y) <= eps*math.Max(1, math.Abs(y))
	}
	switch x := a.(type) {
	case float32:
		y, ok := b.(float32)
		return ok && close(float64(x), float64(y), 1e-6)
	case float64:
		y, ok := b.(float64)
		return ok && close(x, y, 1e-10)
	case decimal.Decimal:
		y, ok := b.(decimal.Decimal)
		return ok && close(ratFloat(x.Rat()), ratFloat(y.Rat()), 1e-10)
	case string:
		y, ok := b.(string)
		f, e1 := strconv.ParseFloat(x, 64)
		g, e2 := strconv.ParseFloat(y, 64)
		return ok && (x == y || e1 == nil && e2 == nil && close(f, g, 2e-6))
	}
	return sameValue(a, b)
}

func (f field) same(v any) bool {
	if f.v == nil || v == nil {
		return f.v == nil && v == nil
	}
	if f.approx {
		return near(v, f.v)
	}
	return sameValue(f.v, v)
}

func respellName(s string, i int) string {
	switch i % 3 {
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToLower(s)
	}
	return s
}

// c23Case is a table with computed columns, and values assigned to its rows later.
type c23Case struct {
	Plain []colSpec
	Calc  []c23Calc
	Rows  [][]cell
	Next  [][]cell
	Clone bool
	Names int
}

// c23Calc is a computed column.
type c23Calc struct {
	Type int
	Expr xnode
}

func (c c23Case) check(dt *data.DataTable, row *data.DataRow, cells []cell, what string, o *vk.Obs) error {
	env := &xenv{cols: map[string]xout{}}
	var fields []field
	for i, col := range c.Plain {
		var f field
		if !cells[i].Null {
			f.v, _ = goValue(col.Type, cells[i].text())
		}
		fields = append(fields, f)
		env.cols[strings.ToUpper(col.Name)] = colValue(col.Type, cells[i])
	}
	for i, f := range fields {
		if v, err := row.ValueFast(i); err != nil || !f.same(v) {
			return fmt.Errorf("%s: ValueFast(%d) gives %#v and error %v, stored %#v", what, i, v, err, f.v)
		}
	}
	for i, calc := range c.Calc {
		x := env.eval1(calc.Expr, -1)
		f := xfield(x, calc.Type)
		fields = append(fields, f)
		t := colValue(calc.Type, cell{Null: true}).T
		var v xout
		switch {
		case f.unspec || f.approx:
			v = xunspec
			o.Label("computed: unspecified")
		case f.err:
			v = xerr
			o.Label("computed: error")
		case f.v == nil:
			v = xnull(t)
			o.Label("computed: null")
			o.NonTrivial()
		default:
			v = goXValue(t, f.v)
			o.Label("computed: %s to %s", xtNames[x.T], typeNames[calc.Type])
			o.NonTrivial()
		}
		env.cols[fmt.Sprintf("CALC%d", i+1)] = v
	}
	for i, f := range fields {
		col := dt.Column(i)
		typ := int(col.Type())
		where := fmt.Sprintf("%s %s of type %s", what, col.Name(), typeNames[typ])
		if col.Expression() != "" {
			where += " computed as " + col.Expression()
		}
		name := respellName(col.Name(), c.Names+i)
		v, err := row.Value(i)
		w, errName := row.ValueByName(name)
		if (err == nil) != (errName == nil) || err == nil && !sameValue(v, w) {
			return fmt.Errorf("%s: Value gives %v %v, ValueByName %v %v", where, v, err, w, errName)
		}
		texts := []string{row.ValueAsString(i), row.ValueAsStringByName(name), row.ColumnValueAsString(col)}
		if f.unspec {
			continue
		}
		if f.err {
			if err == nil {
				return fmt.Errorf("%s: Value gives %v, expected an error", where, v)
			}
			for _, s := range texts {
				if s != "" {
					return fmt.Errorf("%s: text is %q, expected none as there is no value", where, s)
				}
			}
		} else {
			if err != nil || !f.same(v) {
				return fmt.Errorf("%s: Value gives %v %v, expected %v", where, v, err, f.v)
			}
			for _, s := range texts {
				if s != fieldText(v) {
					return fmt.Errorf("%s: text is %q, expected %q", where, s, fieldText(v))
				}
			}
		}
		for k, get := range typed {
			for j, r := range get(row, i, name) {
				call := fmt.Sprintf("%s: %sValue", where, typeNames[k])
				if j == 1 {
					call += "ByName"
				}
				switch {
				case k != typ && r.err == nil:
					return fmt.Errorf("%s gives %v, expected an error", call, r.v)
				case k != typ:
				case f.err && r.err == nil:
					return fmt.Errorf("%s gives %v, expected an error", call, r.v)
				case f.err:
				case r.err != nil:
					return fmt.Errorf("%s fails: %v", call, r.err)
				case r.null != (f.v == nil):
					return fmt.Errorf("%s: null is %v, expected %v", call, r.null, f.v == nil)
				case !r.null && !f.same(r.v):
					return fmt.Errorf("%s gives %v, expected %v", call, r.v, f.v)
				}
			}
		}
	}
	n := len(fields)
	for _, i := range []int{-1, n, n + 5} {
		if v, err := row.Value(i); err == nil {
			return fmt.Errorf("column %d of %d gives %v, expected an error", i, n, v)
		}
		if s := row.ValueAsString(i); s != "" {
			return fmt.Errorf("column %d of %d has text %q", i, n, s)
		}
		if err := row.SetValue(i, nil); err == nil {
			return fmt.Errorf("column %d of %d can be assigned", i, n)
		}
		for k, get := range typed {
			for _, r := range get(row, i, "Nope") {
				if r.err == nil {
					return fmt.Errorf("%sValue of unknown column %d or name gives %v, expected an error", typeNames[k], i, r.v)
				}
			}
		}
	}
	if v, err := row.ValueByName("Nope"); err == nil {
		return fmt.Errorf("an unknown column gives %v, expected an error", v)
	}
	if s := row.ValueAsStringByName("Nope"); s != "" {
		return fmt.Errorf("an unknown column has text %q", s)
	}
	if err := row.SetValueByName("Nope", nil); err == nil {
		return fmt.Errorf("an unknown column can be assigned")
	}
	for i := len(c.Plain); i < n; i++ {
		if err := row.SetValue(i, nil); err == nil {
			return fmt.Errorf("computed column %s can be assigned", dt.Column(i).Name())
		}
		if err := row.SetValueByName(dt.Column(i).Name(), "x"); err == nil {
			return fmt.Errorf("computed column %s can be assigned by name", dt.Column(i).Name())
		}
	}
	return nil
}

func execC23(c c23Case, o *vk.Obs) error {
	spec := tableSpec{Name: "Rows", Cols: slices.Clone(c.Plain)}
	for i, calc := range c.Calc {
		spec.Cols = append(spec.Cols, colSpec{Name: fmt.Sprintf("Calc%d", i+1), Type: calc.Type, Expr: calc.Expr.statement()})
	}
	for _, r := range c.Rows {
		spec.Rows = append(spec.Rows, append(slices.Clone(r), make([]cell, len(c.Calc))...))
	}
	dt, err := spec.build(data.NewDataSet())
	if err != nil {
		return err
	}
	for i, cells := range c.Rows {
		if err := c.check(dt, dt.Row(i), cells, fmt.Sprintf("row %d,", i), o); err != nil {
			return err
		}
	}
	var clones []*data.DataRow
	if c.Clone {
		for i, cells := range c.Rows {
			clone := dt.CloneRow(dt.Row(i))
			if err := c.check(dt, clone, cells, fmt.Sprintf("copy of row %d,", i), o); err != nil {
				return err
			}
			clones = append(clones, clone)
		}
		o.Label("copied")
	}
	// assign other values
	for i, cells := range c.Next {
		row := dt.Row(i)
		for k, cl := range cells {
			var v any
			if !cl.Null {
				v, _ = goValue(c.Plain[k].Type, cl.text())
			}
			err := error(nil)
			if (k+c.Names)%2 == 0 {
				err = row.SetValue(k, v)
			} else {
				err = row.SetValueByName(respellName(c.Plain[k].Name, k), v)
			}
			if err != nil {
				return fmt.Errorf("assigning %s fails: %v", c.Plain[k].Name, err)
			}
		}
		if err := c.check(dt, row, cells, fmt.Sprintf("reassigned row %d,", i), o); err != nil {
			return err
		}
	}
	for i, clone := range clones {
		if err := c.check(dt, clone, c.Rows[i], fmt.Sprintf("copy of changed row %d,", i), o); err != nil {
			return err
		}
	}
	return nil
}

func genC23(t *rapid.T, computed bool) (c c23Case) {
	g := &xgen{t: t, ops: true, cols: true, nulls: rapid.IntRange(0, 3).Draw(t, "nulllits") == 0, fns: rapid.Bool().Draw(t, "fns")}
	c.Names = rapid.IntRange(0, 5).Draw(t, "names")
	c.Clone = rapid.Bool().Draw(t, "clone")
	used := []xnode{}
	if computed {
		for i := rapid.IntRange(1, 3).Draw(t, "calcs"); i > 0; i-- {
			calc := c23Calc{Type: rapid.IntRange(tString, tUInt64).Draw(t, "type")}
			from := g.anyType()
			switch rapid.IntRange(0, 4).Draw(t, "kind") {
			case 4:
				// Text of whole numbers at the bounds of the integer types
				calc.Expr = g.lit(xStr)
				edge := new(big.Int).Lsh(big.NewInt(1), rapid.SampledFrom([]uint{0, 7, 8, 15, 16, 31, 32, 63, 64, 70}).Draw(t, "bits"))
				edge.Add(edge, big.NewInt(int64(rapid.IntRange(-2, 1).Draw(t, "off"))))
				if rapid.IntRange(0, 2).Draw(t, "minus") == 0 {
					edge.Neg(edge)
				}
				calc.Expr.S = edge.String()
			case 0:
				calc.Expr = g.node("col", g.pick("column", leafCols(from)...))
			case 1:
				calc.Expr = g.leaf(from)
			default:
				calc.Expr = g.expr(from, rapid.IntRange(1, 2).Draw(t, "depth"))
			}
			if k := len(c.Calc); k > 0 && rapid.IntRange(0, 3).Draw(t, "nested") == 0 {
				other := g.node("col", fmt.Sprintf("Calc%d", rapid.IntRange(1, k).Draw(t, "other")))
				switch rapid.IntRange(0, 3).Draw(t, "use") {
				case 0:
					calc.Expr = other
				case 1:
					calc.Expr = g.node("isnull", "", other)
				case 2:
					calc.Expr = g.node("fn", "Coalesce", other, calc.Expr)
				default:
					calc.Expr = g.node("bin", "+", g.lit(xStr), other)
				}
			}
			c.Calc = append(c.Calc, calc)
			used = append(used, calc.Expr)
		}
		c.Plain = xcols
		c.Rows = genXRows(t, used, rapid.Bool().Draw(t, "nulls"), 3)
		if rapid.Bool().Draw(t, "reassign") {
			c.Next = genXRows(t, used, true, len(c.Rows))
			c.Next = c.Next[:min(len(c.Next), len(c.Rows))]
		}
		return
	}
	names := uniqueNames(t, "name", rapid.IntRange(1, 12).Draw(t, "columns"), []string{"A", "b", "SignalID", "PointTag", "x y", "é", "Value"})
	for _, n := range names {
		c.Plain = append(c.Plain, colSpec{Name: n, Type: rapid.IntRange(tString, tUInt64).Draw(t, "type")})
	}
	rows := func(n int) (rows [][]cell) {
		for i := 0; i < n; i++ {
			var row []cell
			for _, col := range c.Plain {
				row = append(row, genCell(t, col.Type, 4))
			}
			rows = append(rows, row)
		}
		return
	}
	c.Rows = rows(rapid.IntRange(1, 3).Draw(t, "rows"))
	c.Next = rows(rapid.IntRange(0, len(c.Rows)).Draw(t, "next"))
	return
}

func TestC23(t *testing.T) {
	vk.Run(t, vk.Spec[c23Case]{
		ID: "C23", Name: "fields", Rule: "rows of up to 12 columns of any types, read through every accessor by index and name, copied and reassigned; non-trivial: always",
		Quick: 4000, Deep: 60000,
		Exec: func(c c23Case, o *vk.Obs) error { o.NonTrivial(); return execC23(c, o) },
		Gen:  func(t *rapid.T) c23Case { return genC23(t, false) },
	})
	vk.Run(t, vk.Spec[c23Case]{
		ID: "C23", Name: "computed", Rule: "up to 3 computed columns of any type whose expressions use 30 plain columns and each other, read through every accessor, copied and reassigned; non-trivial: a computed column with a definite value or null",
		Quick: 3000, Deep: 60000, Exec: execC23,
		Gen: func(t *rapid.T) c23Case { return genC23(t, true) },
	})
	vk.Run(t, vk.Spec[c23Loop]{
		ID: "C23", Name: "loops", Rule: "computed columns that refer to each other in a loop of up to 4 columns, or lead to one; non-trivial: all",
		Quick: 60, Deep: 2000, Exec: execC23Loop,
		Gen: func(t *rapid.T) c23Loop {
			return c23Loop{rapid.IntRange(1, 4).Draw(t, "n"), rapid.IntRange(tString, tUInt64).Draw(t, "type"), rapid.IntRange(0, 2).Draw(t, "form"), rapid.IntRange(0, 1).Draw(t, "lead")}
		},
	})
}

// c23Loop is a loop of computed columns.
type c23Loop struct{ N, Type, Form, Lead int }

func execC23Loop(c c23Loop, o *vk.Obs) error {
	o.NonTrivial()
	spec := tableSpec{Name: "Rows", Cols: []colSpec{{Name: "Plain", Type: tInt32}}, Rows: [][]cell{make([]cell, 1+c.N+c.Lead)}}
	spec.Rows[0][0].S = "7"
	for i := 0; i < c.N+c.Lead; i++ {
		next := fmt.Sprintf("C%d", i+1)
		if i == c.N+c.Lead-1 {
			next = fmt.Sprintf("C%d", c.Lead)
		}
		spec.Cols = append(spec.Cols, colSpec{Name: fmt.Sprintf("C%d", i), Type: c.Type, Expr: pick([]string{"%", "% + 'x'", "IIf(Plain = 7, %, 0)"}, c.Form)})
		spec.Cols[i+1].Expr = strings.ReplaceAll(spec.Cols[i+1].Expr, "%", next)
	}
	dt, err := spec.build(data.NewDataSet())
	if err != nil {
		return err
	}
	for round := 0; round < 2; round++ {
		for i := 1; i < len(spec.Cols); i++ {
			if v, err := dt.Row(0).Value(i); err == nil {
				return fmt.Errorf("column %s = %s, part of a loop, has value %v", spec.Cols[i].Name, spec.Cols[i].Expr, v)
			}
			if r := typed[c.Type](dt.Row(0), i, spec.Cols[i].Name)[round]; r.err == nil {
				return fmt.Errorf("column %s = %s, part of a loop, has value %v", spec.Cols[i].Name, spec.Cols[i].Expr, r.v)
			}
			if s := dt.RowValueAsString(0, i); s != "" {
				return fmt.Errorf("column %s = %s, part of a loop, has text %q", spec.Cols[i].Name, spec.Cols[i].Expr, s)
			}
		}
		if s := dt.RowValueAsStringByName(0, "plain"); s != "7" {
			return fmt.Errorf("plain column has text %q, expected 7", s)
		}
	}
	return nil
}
