package props

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/ticks"
	"github.com/sttp/goapi/sttp/transport"
	"pgregory.net/rapid"
	"verif/harness/vk"
)

// c33Case is something of each kind that has a text form.
type c33Case struct {
	SetName string
	Names   []string // further tables
	Table   tableSpec
	Code    int // of the enumerations
	ID      uint32
	Ticks   int64
	Value   uint64 // bits
	Flags   uint32
	Wide    int `json:",omitempty"` // so many more columns
	Tall    int `json:",omitempty"` // and rows
}

var c33Operators = map[string]string{
	"Multiply": "*", "Divide": "/", "Modulus": "%", "Add": "+", "Subtract": "-", "BitShiftLeft": "<<", "BitShiftRight": ">>", "BitwiseAnd": "&", "BitwiseOr": "|", "BitwiseXor": "^",
	"LessThan": "<", "LessThanOrEqual": "<=", "GreaterThan": ">", "GreaterThanOrEqual": ">=", "Equal": "=", "EqualExactMatch": "===", "NotEqual": "<>", "NotEqualExactMatch": "!==",
	"IsNull": "IS NULL", "IsNotNull": "IS NOT NULL", "Like": "LIKE", "LikeExactMatch": "LIKE BINARY", "NotLike": "NOT LIKE", "NotLikeExactMatch": "NOT LIKE BINARY", "And": "AND", "Or": "OR",
}

// c33Name gives the name of a code in an enumeration declared as a struct of named values.
func c33Name(enum any, code int) string {
	v := reflect.ValueOf(enum)
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Int() == int64(code) {
			return v.Type().Field(i).Name
		}
	}
	return ""
}

func (t tableSpec) enlarged(wide, tall int) tableSpec {
	t.Cols, t.Rows = slices.Clone(t.Cols), slices.Clone(t.Rows)
	for i := range t.Rows {
		t.Rows[i] = slices.Clone(t.Rows[i])
	}
	for n := 0; n < wide; n++ {
		t.Cols = append(t.Cols, colSpec{Name: fmt.Sprintf("Column %d", n), Type: []int{tInt32, tString, tDouble}[n%3]})
		for i := range t.Rows {
			t.Rows[i] = append(t.Rows[i], cell{S: fmt.Sprint(n), Null: n%5 == 3})
		}
	}
	for n := len(t.Rows); n > 0 && len(t.Rows) < tall; {
		t.Rows = append(t.Rows, t.Rows[len(t.Rows)%n])
	}
	return t
}

func execC33(c c33Case, o *vk.Obs) error {
	c.Table = c.Table.enlarged(c.Wide, c.Tall)
	// Enumerations
	undefined := fmt.Sprintf("0x%x", c.Code)
	named := func(name string, m map[string]string) string {
		if m != nil && name != "" {
			name = m[name]
		}
		if name == "" {
			return undefined
		}
		return name
	}
	value := c33Name(data.ExpressionValueType, c.Code)
	typ := c33Name(data.DataType, c.Code)
	if typ == "" {
		typ = "Undefined"
	}
	for _, e := range []struct{ what, got, want string }{
		{"expression type", data.ExpressionTypeEnum(c.Code).String(), named(c33Name(data.ExpressionType, c.Code), nil)},
		{"value type", data.ExpressionValueTypeEnum(c.Code).String(), named(value, nil)},
		{"function type", data.ExpressionFunctionTypeEnum(c.Code).String(), named(c33Name(data.ExpressionFunctionType, c.Code), nil)},
		{"unary type", data.ExpressionUnaryTypeEnum(c.Code).String(), named(c33Name(data.ExpressionUnaryType, c.Code), map[string]string{"Plus": "+", "Minus": "-", "Not": "~"})},
		{"operator type", data.ExpressionOperatorTypeEnum(c.Code).String(), named(c33Name(data.ExpressionOperatorType, c.Code), c33Operators)},
		{"data type", data.DataTypeEnum(c.Code).String(), typ},
	} {
		if e.got != e.want {
			return fmt.Errorf("%s %d renders as %q, expected %q", e.what, c.Code, e.got, e.want)
		}
	}
	vt := data.ExpressionValueTypeEnum(c.Code)
	if got, want := vt.IsIntegerType(), value == "Boolean" || value == "Int32" || value == "Int64"; got != want {
		return fmt.Errorf("value type %v is integer: %v", vt, got)
	}
	if got, want := vt.IsNumericType(), vt.IsIntegerType() || value == "Decimal" || value == "Double"; got != want {
		return fmt.Errorf("value type %v is numeric: %v", vt, got)
	}
	if n := data.ExpressionValueTypeLen(); n != reflect.ValueOf(data.ExpressionValueType).NumField() {
		return fmt.Errorf("there are %d value types", n)
	}
	if name := c33Name(data.TimeInterval, c.Code); name != "" {
		for _, s := range []string{name, strings.ToUpper(name), strings.ToLower(name), "  " + name + "\t"} {
			if v, err := data.ParseTimeInterval(s); err != nil || int(v) != c.Code {
				return fmt.Errorf("interval %q parsed as %d, %v", s, v, err)
			}
		}
		if _, err := data.ParseTimeInterval(name + "s"); err == nil {
			return fmt.Errorf("interval %q is accepted", name+"s")
		}
	}

	// Data sets, tables, columns and rows
	ds := data.NewDataSet()
	ds.Name = c.SetName
	dt, err := c.Table.build(ds)
	if err != nil {
		return err
	}
	names := []string{c.Table.Name}
	for _, n := range c.Names {
		ds.AddTable(ds.CreateTable(n))
		names = append(names, n)
	}
	got := ds.String()
	inner, ok := strings.CutPrefix(got, c.SetName+" [")
	inner, ok2 := strings.CutSuffix(inner, "]")
	list := strings.Split(inner, ", ")
	slices.Sort(list)
	slices.Sort(names)
	if !ok || !ok2 || !slices.Equal(list, names) {
		return fmt.Errorf("data set %q of tables %q renders as %q", c.SetName, names, got)
	}
	var cols []string
	for i, col := range c.Table.Cols {
		want := col.Name + " (" + typeNames[col.Type] + ")"
		if col.Expr != "" {
			want = col.Name + " (Computed " + typeNames[col.Type] + ")"
		}
		if got := dt.Column(i).String(); got != want {
			return fmt.Errorf("column %+v renders as %q", col, got)
		}
		cols = append(cols, want)
	}
	rows := fmt.Sprint(len(c.Table.Rows))
	if n := len(c.Table.Rows); n >= 1000 {
		rows = fmt.Sprintf("%d,%03d", n/1000, n%1000)
	}
	if got, want := dt.String(), c.Table.Name+" ["+strings.Join(cols, ", ")+"] x "+rows+" rows"; got != want {
		return fmt.Errorf("table renders as %q, expected %q", got, want)
	}
	for i, r := range c.Table.Rows {
		var fields []string
		for k, f := range r {
			col := c.Table.Cols[k]
			var v any
			switch {
			case col.Expr != "":
				if v, err = dt.Row(i).Value(k); err != nil {
					return fmt.Errorf("computed column %q fails: %v", col.Expr, err)
				}
			case !f.Null:
				v, _ = goValue(col.Type, f.text())
			}
			s := fieldText(v)
			if col.Type == tString {
				s = `"` + s + `"`
			}
			fields = append(fields, s)
		}
		if got, want := dt.Row(i).String(), "["+strings.Join(fields, ", ")+"]"; got != want {
			return fmt.Errorf("row renders as %q, expected %q", got, want)
		}
		o.NonTrivial()
	}

	// Measurements
	m := transport.Measurement{SignalID: guidOf(c.ID), Timestamp: ticks.Ticks(c.Ticks), Value: math.Float64frombits(c.Value), Flags: transport.StateFlagsEnum(c.Flags)}
	text := m.String()
	head := "{" + formatGUID(m.SignalID) + "} @ "
	sec, frac := c.Ticks/10000000, c.Ticks%10000000
	when := time.Unix(sec-62135596800, frac*100).UTC().Format("15:04:05.999")
	tail := " (" + m.Flags.String() + ")"
	number, ok := strings.CutPrefix(text, head+when+" = ")
	number, ok2 = strings.CutSuffix(number, tail)
	if !ok || !ok2 {
		return fmt.Errorf("measurement of signal %v at %s with flags %v renders as %q", m.SignalID, when, m.Flags, text)
	}
	if v := m.Value; math.IsNaN(v) || math.IsInf(v, 0) {
		if !strings.Contains(number, fmt.Sprint(v)) {
			return fmt.Errorf("value %v renders as %q", v, text)
		}
	} else {
		r, ok := new(big.Rat).SetString(number)
		if _, frac, _ := strings.Cut(number, "."); !ok || len(frac) != 3 {
			return fmt.Errorf("value %v renders as %q", v, text)
		}
		diff := r.Sub(r, new(big.Rat).SetFloat64(v))
		if diff.Abs(diff).Cmp(big.NewRat(1, 2000)) > 0 {
			return fmt.Errorf("value %v renders as %q", v, text)
		}
	}
	return nil
}

func genC33(t *rapid.T) (c c33Case) {
	pool := []string{"Device", "Active Measurements", "a", "B", "é", "[x]", "T (1)", "ROWS", "x y"}
	c.SetName = rapid.SampledFrom([]string{"", "DataSet", "my set", "x"}).Draw(t, "set")
	all := uniqueNames(t, "table", rapid.IntRange(1, 4).Draw(t, "tables"), pool)
	c.Table.Name, c.Names = all[0], all[1:]
	for _, n := range uniqueNames(t, "col", rapid.IntRange(0, 5).Draw(t, "cols"), pool) {
		col := colSpec{Name: n, Type: rapid.IntRange(0, len(typeNames)-1).Draw(t, "type")}
		if rapid.IntRange(0, 5).Draw(t, "computed") == 0 {
			col.Expr = rapid.SampledFrom([]string{"1", "1 + 1", "3 * 5"}).Draw(t, "expr")
			col.Type = rapid.SampledFrom([]int{tInt32, tInt64, tDouble, tString, tUInt8}).Draw(t, "type")
		}
		c.Table.Cols = append(c.Table.Cols, col)
	}
	for i := rapid.IntRange(0, 5).Draw(t, "rows"); i > 0; i-- {
		row := []cell{}
		for _, col := range c.Table.Cols {
			row = append(row, genCell(t, col.Type, 4))
		}
		c.Table.Rows = append(c.Table.Rows, row)
	}
	c.Code = rapid.IntRange(0, 45).Draw(t, "code")
	c.ID = rapid.Uint32().Draw(t, "id")
	c.Ticks = rapid.Int64Range(0, maxTicks).Draw(t, "ticks")
	v := rapid.OneOf(rapid.Float64Range(-1e6, 1e6), rapid.Float64(), rapid.SampledFrom([]float64{0, 0.0005, -0.0004, 59.9995, 1e15, math.NaN(), math.Inf(1)})).Draw(t, "value")
	c.Value = math.Float64bits(v)
	c.Flags = rapid.OneOf(rapid.Just(uint32(0)), rapid.Uint32()).Draw(t, "flags")
	return
}

func TestC33(t *testing.T) {
	vk.Run(t, vk.Spec[c33Case]{
		ID: "C33", Name: "text", Rule: "a data set of up to 4 tables and 5 rows, a code of every enumeration of the data package and a measurement, all rendered as text; non-trivial: the table has rows",
		Quick: 6000, Deep: 200000, Exec: execC33, Gen: genC33,
	})
	vk.Run(t, vk.Spec[c33Case]{
		ID: "C33", Name: "large", Rule: "as above with up to 300 columns and 1500 rows; non-trivial: as above",
		Quick: 30, Deep: 400, Exec: execC33,
		Gen: func(t *rapid.T) c33Case {
			c := genC33(t)
			c.Wide, c.Tall = rapid.SampledFrom([]int{0, 10, 40, 300}).Draw(t, "wide"), rapid.SampledFrom([]int{2, 20, 999, 1000, 1500}).Draw(t, "tall")
			if c.Wide > 40 {
				c.Tall = 2
			}
			return c
		},
	})
}
