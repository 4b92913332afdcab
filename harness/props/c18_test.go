package props

import (
	"fmt"
	"strings"
	"testing"

	"github.com/sttp/goapi/sttp/data"
	"pgregory.net/rapid"
	"verif/harness/vk"
)

// execX evaluates an expression with the library and compares it with the reference.
func execX(c xcase, o *vk.Obs) error {
	_, dt, err := c.table("Rows")
	if err != nil {
		return err
	}
	var texts []string
	for _, e := range c.Exprs {
		texts = append(texts, e.statement())
	}
	trees, treeErr := data.GenerateExpressionTreesFromTable(dt, strings.Join(texts, "; "), true)
	if treeErr == nil && len(trees) != len(texts) {
		return fmt.Errorf("%d expressions give %d trees: %s", len(texts), len(trees), strings.Join(texts, "; "))
	}
	for k, expr := range c.Exprs {
		text := texts[k]
		o.Label("depth %d", expr.depth())
		for i, row := range c.Rows {
			env := rowEnv(row)
			want := env.eval1(expr, -1)
			var got *data.ValueExpression
			err := treeErr
			if err == nil {
				got, err = trees[k].Evaluate(dt.Row(i))
			}
			if e := want.match(got, err); e != nil {
				return fmt.Errorf("%s %v (row %d)", text, e, i)
			}
			if k == len(c.Rows)%len(c.Exprs) && i == 0 {
				got, err = data.EvaluateDataRowExpression(dt.Row(i), expr.text(), true)
				if e := want.match(got, err); e != nil {
					return fmt.Errorf("evaluated directly, %s %v", text, e)
				}
			}
			switch {
			case want.Unspec:
				o.Label("result: unspecified")
				continue
			case want.Err:
				o.Label("result: error")
			case want.Null:
				o.Label("result: null")
			default:
				o.Label("result: %s", xtNames[want.T])
			}
			if expr.size() > 1 {
				o.NonTrivial()
			}
			for s := range env.seen {
				o.Label("%s", s)
			}
		}
	}
	return nil
}

// statement prints an expression as a statement of its own.
func (n xnode) statement() string {
	if n.K == "lit" && n.T == xGuid {
		return "(" + n.text() + ")" // a GUID alone is an identifier
	}
	return n.text()
}

// genPair draws one operator applied to columns or literals of any two types.
func genPair(t *rapid.T, g *xgen) xnode {
	operand := func(typ int) xnode {
		if g.n(0, 4, "literal") == 0 {
			return g.lit(typ)
		}
		return g.node("col", g.pick("column", leafCols(typ)...))
	}
	l, r := g.anyType(), g.anyType()
	if g.n(0, 2, "same") == 0 {
		r = l
	}
	switch g.n(0, 9, "op") {
	case 0:
		return g.node("un", g.pick("unary", "-", "+", "not"), operand(l))
	case 1:
		n := g.node("like", "like", operand(xStr), g.pattern(0))
		n.Not, n.Exact = g.n(0, 2, "not") == 0, g.n(0, 2, "exact") == 0
		return n
	case 2:
		n := g.node("in", "in", operand(l), operand(r), operand(l))
		n.Not, n.Exact = g.n(0, 2, "not") == 0, g.n(0, 2, "exact") == 0
		return n
	case 3:
		return g.node("bin", g.pick("shift", "<<", ">>"), operand(g.n(xBool, xInt64, "left")), operand(g.n(xBool, xInt64, "right")))
	}
	return g.node("bin", g.pick("op", "+", "-", "*", "/", "%", "&", "|", "^", "<", "<=", ">", ">=", "=", "<>", "===", "!==", "and", "or"), operand(l), operand(r))
}

func genXCase(t *rapid.T, exprs, rows int, nulls bool, gen func() xnode) (c xcase) {
	for i := rapid.IntRange(1, exprs).Draw(t, "exprs"); i > 0; i-- {
		c.Exprs = append(c.Exprs, gen())
	}
	c.Rows = genXRows(t, c.Exprs, nulls, rows)
	return
}

func TestC18(t *testing.T) {
	vk.Run(t, vk.Spec[xcase]{
		ID: "C18", Name: "pairs", Rule: "up to 6 expressions of one operator over columns and literals of any two types, on up to 10 rows; non-trivial: the reference gives a definite value or error",
		Quick: 9000, Deep: 150000, Exec: execX,
		Gen: func(t *rapid.T) xcase {
			g := &xgen{t: t, ops: true, cols: true}
			return genXCase(t, 6, 10, false, func() xnode { return genPair(t, g) })
		},
	})
	vk.Run(t, vk.Spec[xcase]{
		ID: "C18", Name: "trees", Rule: "up to 5 operator trees of up to depth 5 over literals and columns of all types in random spellings; non-trivial: the reference gives a definite value or error for an expression with an operator",
		Quick: 6000, Deep: 150000, Exec: execX,
		Gen: func(t *rapid.T) xcase {
			g := &xgen{t: t, ops: true, cols: true, chaos: 4}
			return genXCase(t, 5, 4, false, func() xnode { return g.expr(g.anyType(), rapid.IntRange(1, 4).Draw(t, "depth")) })
		},
	})
	vk.Run(t, vk.Spec[c18Chain]{
		ID: "C18", Name: "chains", Rule: "chains of 3 to 6 operands without parentheses; non-trivial: operators of different documented precedence",
		Quick: 800, Deep: 10000, Exec: execC18Chain,
		Gen: func(t *rapid.T) (c c18Chain) {
			c.Logic = rapid.IntRange(0, 3).Draw(t, "logic") == 0
			for i := rapid.IntRange(3, 6).Draw(t, "operands"); i > 0; i-- {
				c.Vals = append(c.Vals, rapid.Int64Range(1, 9).Draw(t, "value"))
				if c.Logic {
					c.Ops = append(c.Ops, rapid.SampledFrom([]string{"AND", "OR"}).Draw(t, "op"))
				} else {
					c.Ops = append(c.Ops, rapid.SampledFrom([]string{"+", "-", "*", "/", "%"}).Draw(t, "op"))
				}
			}
			return
		},
	})
}

// c18Chain is an expression of several operators without parentheses; the last operator is not used.
type c18Chain struct {
	Logic bool
	Vals  []int64
	Ops   []string
}

func apply(op string, a, b int64) int64 {
	switch op {
	case "+":
		return a + b
	case "-":
		return a - b
	case "*":
		return a * b
	case "/":
		return a / b
	case "%":
		return a % b
	case "AND":
		return a & b
	}
	return a | b
}

func execC18Chain(c c18Chain, o *vk.Obs) error {
	vals := c.Vals
	text := ""
	if c.Logic {
		vals = nil
		for _, v := range c.Vals {
			vals = append(vals, v%2)
		}
	}
	for i, v := range vals {
		s := fmt.Sprint(v)
		if c.Logic {
			s = fmt.Sprint(v == 1)
		}
		text += s
		if i < len(vals)-1 {
			text += " " + c.Ops[i] + " "
		}
	}
	// documented: tight operators first, each level from the left
	tight := func(op string) bool { return op == "*" || op == "/" || op == "%" || op == "AND" }
	fromLeft, documented := vals[0], int64(0)
	term, sum, pending := vals[0], int64(0), ""
	mixed := false
	for i := 1; i < len(vals); i++ {
		op := c.Ops[i-1]
		mixed = mixed || tight(op) != tight(c.Ops[0])
		fromLeft = apply(op, fromLeft, vals[i])
		if tight(op) {
			term = apply(op, term, vals[i])
			continue
		}
		if pending == "" {
			sum = term
		} else {
			sum = apply(pending, sum, term)
		}
		pending, term = op, vals[i]
	}
	documented = term
	if pending != "" {
		documented = apply(pending, sum, term)
	}
	if mixed {
		o.NonTrivial()
	}
	v, err := data.EvaluateExpression(text, true)
	if err != nil {
		return fmt.Errorf("%s fails: %v", text, err)
	}
	g, err := fromLib(v)
	if err != nil {
		return err
	}
	var got int64
	switch x := g.V.(type) {
	case bool:
		got = boolInt(x)
	case int64:
		got = x
	default:
		return fmt.Errorf("%s gives %v", text, g)
	}
	switch got {
	case documented:
		return nil
	case fromLeft:
		return vk.Known("precedence", "operators of different precedence without parentheses are evaluated from the left, unlike documented, for example 2 + 3 * 4 gives 20")
	}
	return fmt.Errorf("%s gives %d, expected %d", text, got, documented)
}
