package props

import (
	"fmt"
	"testing"

	"github.com/sttp/goapi/sttp/data"
	"pgregory.net/rapid"
	"verif/harness/vk"
)

// execC20Select selects the rows for which a condition over nullable columns is true.
func execC20Select(c xcase, o *vk.Obs) error {
	ds, dt, err := c.table("Rows")
	if err != nil {
		return err
	}
	cond := c.Exprs[0].text()
	text := "FILTER Rows WHERE " + cond
	var want []*data.DataRow
	var nulls int
	failing, untyped, other := -1, false, false
	for i, row := range c.Rows {
		v := rowEnv(row).eval1(c.Exprs[0], -1)
		switch {
		case v.Unspec:
			o.Label("unspecified")
			return nil
		case v.Err:
			failing = i
		case v.NoType:
			untyped = true
		case v.T != xBool:
			other = true
		case v.Null:
			nulls++
		case v.truth():
			want = append(want, dt.Row(i))
		}
	}
	got, err := data.SelectDataRows(ds, text, "Rows", nil, true)
	if failing >= 0 {
		o.Label("error")
		if err == nil {
			return fmt.Errorf("%s selects %d rows, expected an error in row %d", text, len(got), failing)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s fails: %v", text, err)
	}
	if err := sameRows(got, want); err != nil {
		return fmt.Errorf("%s: %v", text, err)
	}
	got, err = dt.Select(cond, "", -1)
	switch {
	case untyped:
		o.Label("untyped null")
	case other:
		o.Label("not Boolean")
		if err == nil {
			return fmt.Errorf("DataTable.Select(%s) returns %d rows, expected an error as the condition is not Boolean", cond, len(got))
		}
	case err != nil:
		return fmt.Errorf("DataTable.Select(%s) fails: %v", cond, err)
	default:
		if err := sameRows(got, want); err != nil {
			return fmt.Errorf("DataTable.Select(%s): %v", cond, err)
		}
	}
	if nulls > 0 {
		o.NonTrivial()
		o.Label("null condition")
	}
	if len(want) > 0 && len(want) < len(c.Rows) {
		o.Label("some rows selected")
	}
	return nil
}

func sameRows(got, want []*data.DataRow) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d rows, expected %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Errorf("row at %d is not the expected one", i)
		}
	}
	return nil
}

func TestC20(t *testing.T) {
	vk.Run(t, vk.Spec[xcase]{
		ID: "C20", Name: "nulls", Rule: "up to 6 trees of functions and operators over rows with null columns and NULL literals; non-trivial: the reference gives a definite value or error",
		Quick: 8000, Deep: 150000, Exec: execX,
		Gen: func(t *rapid.T) xcase {
			g := &xgen{t: t, fns: true, ops: true, cols: true, nulls: true, chaos: 2}
			return genXCase(t, 6, 6, true, func() xnode {
				if rapid.IntRange(0, 2).Draw(t, "pair") == 0 {
					return genPair(t, g)
				}
				return g.expr(g.anyType(), rapid.IntRange(1, 3).Draw(t, "depth"))
			})
		},
	})
	vk.Run(t, vk.Spec[xcase]{
		ID: "C20", Name: "select", Rule: "a condition selects from up to 8 rows with null columns; non-trivial: the condition is null for a row",
		Quick: 5000, Deep: 100000, Exec: execC20Select,
		Gen: func(t *rapid.T) xcase {
			g := &xgen{t: t, ops: true, cols: true, nulls: true, fns: rapid.IntRange(0, 2).Draw(t, "fns") == 0}
			e := g.op(xBool, rapid.IntRange(1, 3).Draw(t, "depth"))
			return xcase{[]xnode{e}, genXRows(t, []xnode{e}, true, 8)}
		},
	})
}
