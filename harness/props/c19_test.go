package props

import (
	"fmt"
	"testing"
	"time"

	"github.com/sttp/goapi/sttp/data"
	"pgregory.net/rapid"
	"verif/harness/vk"
)

// xclock is a call of a function that takes the current time.
type xclock struct {
	Name string
	Args string
}

// execXClock checks what is known of the current time: that it is a time, of this day or of one next to it.
func execXClock(c xclock, o *vk.Obs) error {
	text := c.Name + "(" + c.Args + ")"
	before := time.Now().Add(-36 * time.Hour)
	v, err := data.EvaluateExpression(text, true)
	if c.Args != "" {
		if err == nil {
			return fmt.Errorf("%s does not fail", text)
		}
		o.Label("arguments")
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s fails: %v", text, err)
	}
	if v.ValueType() != data.ExpressionValueType.DateTime {
		return fmt.Errorf("%s is a %s", text, v.ValueType().String())
	}
	at, err := v.DateTimeValue()
	if err != nil || at.Before(before) || at.After(time.Now().Add(36*time.Hour)) {
		return fmt.Errorf("%s is %v (error %v)", text, at, err)
	}
	cond := fmt.Sprintf("%s >= #%s# AND %s <= DateAdd(%s, 2, 'Day') AND NOT IsNull(%s, #2000-01-01#) < #2001-01-01#", text, before.UTC().Format("2006-01-02"), text, text, text)
	if v, err = data.EvaluateExpression(cond, true); err != nil {
		return fmt.Errorf("%s fails: %v", cond, err)
	}
	if b, err := v.BooleanValue(); err != nil || !b {
		return fmt.Errorf("%s is %v (error %v)", cond, b, err)
	}
	o.NonTrivial()
	return nil
}

func TestC19(t *testing.T) {
	vk.Run(t, vk.Spec[xclock]{
		ID: "C19", Name: "clock", Rule: "calls of the functions that give the current time, in any case, with and without arguments; non-trivial: without",
		Quick: 200, Deep: 500, Exec: execXClock,
		Gen: func(t *rapid.T) xclock {
			return xclock{Name: flip(t, rapid.SampledFrom([]string{"Now", "UtcNow"}).Draw(t, "name")),
				Args: rapid.SampledFrom([]string{"", "", "1", "'a'", "True, False", "#2020-01-01#"}).Draw(t, "args")}
		},
	})
	vk.Run(t, vk.Spec[xcase]{
		ID: "C19", Name: "calls", Rule: "up to 6 single function calls over literals and columns, on up to 8 rows, a quarter of the cases with nulls; non-trivial: the reference gives a definite value or error",
		Quick: 8000, Deep: 150000, Exec: execX,
		Gen: func(t *rapid.T) xcase {
			g := &xgen{t: t, fns: true, cols: true, chaos: 3}
			return genXCase(t, 6, 8, rapid.IntRange(0, 3).Draw(t, "nulls") == 0, func() xnode { return g.fn(g.anyType(), 1) })
		},
	})
	vk.Run(t, vk.Spec[xcase]{
		ID: "C19", Name: "nested", Rule: "up to 5 trees of functions and operators of up to depth 5; non-trivial: the reference gives a definite value or error",
		Quick: 4000, Deep: 100000, Exec: execX,
		Gen: func(t *rapid.T) xcase {
			g := &xgen{t: t, fns: true, ops: true, cols: true, chaos: 2}
			return genXCase(t, 5, 4, rapid.IntRange(0, 3).Draw(t, "nulls") == 0, func() xnode { return g.fn(g.anyType(), rapid.IntRange(1, 4).Draw(t, "depth")) })
		},
	})
}
