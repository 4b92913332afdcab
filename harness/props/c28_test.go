package props

import (
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/sttp/goapi/sttp/data"
	"pgregory.net/rapid"
	"verif/harness/vk"
)

type c28Op struct {
	Op   string // addtable, removetable, addcolumn, clonecolumn, addrow, clonerow, setvalue, clearrows, clearcolumns, load
	Name string
	Col  string
	Type int
	At   int
	Val  string
	More int `json:",omitempty"` // so many more times, on other names

	quiet bool // part of a repeated operation
}

type c28Case struct {
	Ops   []c28Op
	Limit int
}

type c28Row struct {
	row  *data.DataRow
	vals map[int]string // by column position; string columns only
}

type c28Table struct {
	t    *data.DataTable
	name string
	cols []colSpec
	rows []*c28Row
}

var c28Tables = []string{"Alpha", "ALPHA", "alpha", "Beta", "beta", "Größe", "GRÖSSE", "größe", "", "x y"}
var c28Cols = []string{"ID", "id", "Name", "NAME", "Ünit", "ünit", "v"}

// expanded writes out the repeated operations.
func (c c28Case) expanded() (ops []c28Op) {
	for _, op := range c.Ops {
		for i := 0; i < op.More; i++ {
			x := op
			x.quiet, x.At = true, op.At+i
			switch op.Op {
			case "addtable":
				x.Name = fmt.Sprintf("Table %d", i)
			case "addcolumn":
				x.Col = fmt.Sprintf("Column %d", i)
			case "setvalue":
				x.Val = fmt.Sprint(op.Val, i)
			}
			ops = append(ops, x)
		}
		ops = append(ops, op)
	}
	return
}

func execC28(c c28Case, o *vk.Obs) error {
	c.Ops = c.expanded()
	ds := data.NewDataSet()
	model := map[string]*c28Table{}
	check := func() error {
		if ds.TableCount() != len(model) {
			return fmt.Errorf("%d tables, want %d", ds.TableCount(), len(model))
		}
		var want []string
		for _, m := range model {
			want = append(want, m.name)
		}
		if err := sameBag("table names", ds.TableNames(), want); err != nil {
			return err
		}
		seen := map[*data.DataTable]bool{}
		for _, t := range ds.Tables() {
			if seen[t] {
				return fmt.Errorf("table %q listed twice", t.Name())
			}
			seen[t] = true
			if ds.Table(t.Name()) != t {
				return fmt.Errorf("listed table %q is not the one found by name", t.Name())
			}
		}
		if len(seen) != len(model) {
			return fmt.Errorf("%d tables listed, want %d", len(seen), len(model))
		}
		lookups := c28Tables
		if len(want) > len(lookups) {
			lookups = append(slices.Clone(lookups), want...)
		}
		for _, name := range lookups {
			m := model[strings.ToUpper(name)]
			t := ds.Table(name)
			if m == nil {
				if t != nil {
					return fmt.Errorf("table %q found but absent", name)
				}
				continue
			}
			if t != m.t {
				return fmt.Errorf("table %q is not the one added last", name)
			}
			if t.Name() != m.name || t.Parent() != ds {
				return fmt.Errorf("table %q is named %q", name, t.Name())
			}
			if t.ColumnCount() != len(m.cols) || t.RowCount() != len(m.rows) || len(t.Rows()) != len(m.rows) {
				return fmt.Errorf("table %q has %d columns and %d rows, want %d and %d", name, t.ColumnCount(), t.RowCount(), len(m.cols), len(m.rows))
			}
			for i, col := range m.cols {
				got := t.Column(i)
				if got == nil || got.Name() != col.Name || int(got.Type()) != col.Type || got.Index() != i || got.Parent() != t || got.Expression() != col.Expr {
					return fmt.Errorf("table %q column %d is %v, want %s %s", name, i, got, col.Name, typeNames[col.Type])
				}
			}
			for _, i := range []int{-1, len(m.cols), len(m.cols) + 5, -1 << 40} {
				if t.Column(i) != nil {
					return fmt.Errorf("table %q has a column %d", name, i)
				}
			}
			for _, i := range []int{-1, len(m.rows), len(m.rows) + 3} {
				if t.Row(i) != nil || t.RowValueAsString(i, 0) != "" || t.RowValueAsStringByName(i, "ID") != "" {
					return fmt.Errorf("table %q has a row %d", name, i)
				}
			}
			columns := append([]string{"absent"}, c28Cols...)
			for i := range m.cols {
				if i%7 == 5 {
					columns = append(columns, m.cols[i].Name)
				}
			}
			for _, cn := range columns {
				var at []int
				for i, col := range m.cols {
					if strings.ToUpper(col.Name) == strings.ToUpper(cn) {
						at = append(at, i)
					}
				}
				got, idx := t.ColumnByName(cn), t.ColumnIndex(cn)
				if len(at) == 0 {
					if got != nil || idx != -1 {
						return fmt.Errorf("table %q: absent column %q found at %d", name, cn, idx)
					}
					continue
				}
				ok := false
				for _, i := range at {
					ok = ok || got == t.Column(i) && idx == i
				}
				if !ok {
					return fmt.Errorf("table %q: column %q found at %d, is at %v", name, cn, idx, at)
				}
			}
			for i, r := range m.rows {
				if r.row == nil { // a place without a row
					if t.Row(i) != nil || t.Rows()[i] != nil || t.RowValueAsString(i, 0) != "" || t.RowValueAsStringByName(i, "ID") != "" {
						return fmt.Errorf("table %q: row %d has values", name, i)
					}
					continue
				}
				if t.Row(i) != r.row || t.Rows()[i] != r.row || r.row.Parent() != t {
					return fmt.Errorf("table %q: row %d is not the one added", name, i)
				}
				for k, col := range m.cols {
					want, set := r.vals[k]
					got, err := r.row.Value(k)
					if err != nil {
						return fmt.Errorf("table %q row %d column %d: %v", name, i, k, err)
					}
					if col.Expr != "" {
						if got != any(int32(len(col.Expr))) {
							return fmt.Errorf("table %q row %d column %s computed as %s: %v", name, i, col.Name, col.Expr, got)
						}
						continue
					}
					if set && got != want || !set && got != nil {
						return fmt.Errorf("table %q row %d column %s: %v, want %q", name, i, col.Name, got, want)
					}
					text := "<NULL>"
					if set {
						text = want
					}
					if s := t.RowValueAsString(i, k); s != text {
						return fmt.Errorf("table %q row %d column %s: text %q, want %q", name, i, col.Name, s, text)
					}
				}
				for _, k := range []int{-1, len(m.cols)} {
					if _, err := r.row.Value(k); err == nil {
						return fmt.Errorf("table %q: column %d has a value", name, k)
					}
					if err := r.row.SetValue(k, "x"); err == nil {
						return fmt.Errorf("table %q: column %d can be set", name, k)
					}
				}
				if _, err := r.row.ValueByName("absent"); err == nil {
					return fmt.Errorf("table %q: absent column has a value", name)
				}
			}
			// Every other row, up to the limit
			n := 0
			var want []*data.DataRow
			for _, r := range m.rows {
				if r.row == nil {
					continue
				}
				if n++; n%2 == 1 && (c.Limit < 0 || len(want) < c.Limit) {
					want = append(want, r.row)
				}
			}
			n = 0
			got := t.RowsWhere(func(*data.DataRow) bool { n++; return n%2 == 1 }, c.Limit)
			if len(got) != len(want) {
				return fmt.Errorf("table %q: %d rows selected with limit %d, want %d", name, len(got), c.Limit, len(want))
			}
			for i := range got {
				if got[i] != want[i] {
					return fmt.Errorf("table %q: wrong row selected", name)
				}
			}
			_ = t.String()
		}
		_ = ds.String()
		return nil
	}
	if err := check(); err != nil {
		return err
	}
	for n, op := range c.Ops {
		m := model[strings.ToUpper(op.Name)]
		switch op.Op {
		case "addtable":
			if m != nil {
				o.NonTrivial()
				o.Label("replaced table")
			}
			t := ds.CreateTable(op.Name)
			ds.AddTable(t)
			model[strings.ToUpper(op.Name)] = &c28Table{t: t, name: op.Name}
		case "removetable":
			if got := ds.RemoveTable(op.Name); got != (m != nil) {
				return fmt.Errorf("step %d: removing table %q returned %v", n, op.Name, got)
			}
			delete(model, strings.ToUpper(op.Name))
		}
		if m != nil {
			switch op.Op {
			case "addcolumn":
				for _, col := range m.cols {
					if strings.EqualFold(col.Name, op.Col) {
						o.NonTrivial()
					}
				}
				col := colSpec{Name: op.Col, Type: op.Type}
				if op.Type == tInt32 && op.At%2 == 1 && op.At < 9 {
					col.Expr = strings.Repeat(" ", op.At) + fmt.Sprint(op.At+1) // its value is its length
				}
				m.t.AddColumn(m.t.CreateColumn(op.Col, data.DataTypeEnum(op.Type), col.Expr))
				m.cols = append(m.cols, col)
			case "clonecolumn":
				if len(m.cols) > 0 {
					src := m.t.Column(op.At % len(m.cols))
					m.t.AddColumn(m.t.CloneColumn(src))
					m.cols = append(m.cols, m.cols[op.At%len(m.cols)])
				}
			case "addrow":
				r := &c28Row{row: m.t.CreateRow(), vals: map[int]string{}}
				m.t.AddRow(r.row)
				m.rows = append(m.rows, r)
			case "norow":
				m.t.AddRow(nil)
				m.rows = append(m.rows, &c28Row{})
			case "clonerow":
				if len(m.rows) > 0 {
					src := m.rows[op.At%len(m.rows)]
					if src.row == nil {
						break
					}
					r := &c28Row{row: m.t.CloneRow(src.row), vals: map[int]string{}}
					for k, v := range src.vals {
						r.vals[k] = v
					}
					m.t.AddRow(r.row)
					m.rows = append(m.rows, r)
				}
			case "setvalue":
				if len(m.rows) > 0 {
					for k, col := range m.cols {
						if col.Type == tString && k%2 == op.At%2 {
							r := m.rows[op.At%len(m.rows)]
							if r.row == nil {
								break
							}
							if err := r.row.SetValue(k, op.Val); err != nil {
								return fmt.Errorf("step %d: %v", n, err)
							}
							r.vals[k] = op.Val
						}
					}
				}
			case "clearrows":
				m.t.InitRows(op.At)
				m.rows = nil
			case "clearcolumns":
				m.t.InitRows(op.At)
				m.t.InitColumns(op.At)
				m.rows, m.cols = nil, nil
			}
		}
		if op.quiet {
			continue
		}
		if err := check(); err != nil {
			return fmt.Errorf("after step %d %s %q: %v", n, op.Op, op.Name, err)
		}
		o.Label(op.Op)
	}
	return nil
}

var c28Ops = []string{"addtable", "addtable", "removetable", "addcolumn", "addcolumn", "addcolumn", "clonecolumn", "addrow", "addrow", "clonerow", "setvalue", "setvalue", "clearrows", "clearcolumns", "norow"}

func genC28(t *rapid.T) c28Case {
	c := c28Case{Limit: rapid.SampledFrom([]int{-1, -1, 0, 1, 2, 5}).Draw(t, "limit")}
	names := rapid.SliceOfNDistinct(rapid.SampledFrom(c28Tables), 1, 3, rapid.ID[string]).Draw(t, "names")
	c.Ops = append(c.Ops, c28Op{Op: "addtable", Name: names[0]})
	for i, n := 0, rapid.IntRange(1, 14).Draw(t, "ops"); i < n; i++ {
		c.Ops = append(c.Ops, c28Op{Op: rapid.SampledFrom(c28Ops).Draw(t, "op"), Name: rapid.SampledFrom(names).Draw(t, "table"), Col: rapid.SampledFrom(c28Cols).Draw(t, "column"),
			Type: rapid.SampledFrom([]int{tString, tString, tInt32, tGuid, tDateTime}).Draw(t, "type"), At: rapid.IntRange(0, 9).Draw(t, "at"), Val: genText(t)})
	}
	return c
}

func genC28Large(t *rapid.T) c28Case {
	c := genC28(t)
	c.Limit = rapid.SampledFrom([]int{-1, -1, 1, 30, 100, 700}).Draw(t, "limit")
	for i := range c.Ops {
		switch op := &c.Ops[i]; op.Op {
		case "addtable", "addcolumn":
			op.More = rapid.SampledFrom([]int{0, 0, 5, 40, 140}).Draw(t, "more")
		case "addrow", "clonerow", "setvalue":
			op.More = rapid.SampledFrom([]int{0, 5, 40, 300, 1500}).Draw(t, "more")
		}
	}
	return c
}

func TestC28(t *testing.T) {
	vk.Run(t, vk.Spec[c28Case]{
		ID: "C28", Name: "structure", Rule: "structural operation sequences with colliding names; non-trivial: a table is replaced or a column name repeats",
		Quick: 40000, Deep: 400000,
		Gen:  genC28,
		Exec: execC28,
	})
	vk.Run(t, vk.Spec[c28Case]{
		ID: "C28", Name: "large", Rule: "as above with up to 140 tables, hundreds of columns and thousands of rows; non-trivial: as above",
		Quick: 100, Deep: 2500, Gen: genC28Large, Exec: execC28,
	})
}
