package props

import (
	"fmt"
	"regexp"
	"slices"
	"strings"
	"testing"

	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
	"pgregory.net/rapid"
	"verif/harness/vk"
)

// xtoken splits a filter expression into its tokens.
var xtoken = regexp.MustCompile("(?s)^(?:'(?:[^']|'')*'|#[^#]*#|\"[^\"]*\"|\\[[^\\]]*\\]|`[^`]*`|\\{[^}]*\\}" +
	"|[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}" +
	"|[A-Za-z0-9!_.@#$-]+:[0-9]+|0[xX][0-9a-fA-F]+|[0-9]+(?:\\.[0-9]*)?(?:[eE][+-]?[0-9]+)?|[A-Za-z_][A-Za-z_0-9]*" +
	"|===|!==|==|!=|<>|<=|>=|<<|>>|&&|\\|\\||.)")

// tokens gives the tokens of a text and whether each is separated from the one before.
func tokens(s string) (list []string, apart []bool) {
	for s != "" {
		t := strings.TrimLeft(s, " \t\r\n")
		gap := len(t) < len(s)
		if t == "" {
			break
		}
		tok := xtoken.FindString(t)
		if tok == "" {
			tok = t[:1]
		}
		list, apart = append(list, tok), append(apart, gap)
		s = t[len(tok):]
	}
	return
}

var xgaps = []string{" ", "  ", "\t", "\n", "\r\n", " /* c */ ", " -- c\n", "/**/", " /* ' \" [ ; ) */ ", " --\r\n", "\n\n\t ", " /* 1\n2 */", " -- it's; (\n "}

// spaced prints a text with other white space and comments between its tokens.
func spaced(s string, gaps []int) string {
	list, apart := tokens(s)
	var b strings.Builder
	for i, tok := range list {
		g := gaps[i%len(gaps)]
		switch {
		case g >= 2*len(xgaps) && !apart[i]:
		case g >= 2*len(xgaps):
			b.WriteString(" ")
		case apart[i] || g < len(xgaps):
			b.WriteString(xgaps[g%len(xgaps)])
		}
		b.WriteString(tok)
	}
	return b.String()
}

func genGaps(t *rapid.T) []int {
	return rapid.SliceOfN(rapid.IntRange(0, 4*len(xgaps)), 1, 12).Draw(t, "gaps")
}

// respell draws another spelling of an expression.
func respell(t *rapid.T, n xnode) xnode {
	n.Alt = rapid.IntRange(0, 32).Draw(t, "alt")
	n.Bare = rapid.Bool().Draw(t, "bare")
	if n.Alt < 24 && n.K == "lit" && n.T == xTime {
		n.Alt = n.Alt / 3 * 3 // one form of date
	}
	kids := n.Kids
	n.Kids = nil
	for _, k := range kids {
		n.Kids = append(n.Kids, respell(t, k))
	}
	return n
}

// outcome is what an entry point returns.
type outcome struct {
	err  error
	v    *data.ValueExpression
	rows []*data.DataRow
	ids  []guid.Guid
}

func (a outcome) same(b outcome) error {
	switch {
	case a.err == nil && b.err != nil:
		return fmt.Errorf("fails: %v", b.err)
	case a.err != nil && b.err == nil:
		return fmt.Errorf("does not fail, unlike before with: %v", a.err)
	case a.err != nil:
		return nil
	}
	if a.v != nil || b.v != nil {
		if a.v == nil || b.v == nil {
			return fmt.Errorf("gives a value only once")
		}
		x, ex := fromLib(a.v)
		y, ey := fromLib(b.v)
		if (ex == nil) != (ey == nil) || a.v.ValueType() != b.v.ValueType() {
			return fmt.Errorf("gives %v %v, then %v %v", x, ex, y, ey)
		}
		if ex == nil && (x.Null != y.Null || !x.Null && !sameX(x, y)) {
			return fmt.Errorf("gives %v, then %v", x, y)
		}
	}
	if err := sameRows(b.rows, a.rows); err != nil {
		return err
	}
	key := func(g guid.Guid) string { return string(g[:]) }
	x, y := sortedKeys(a.ids, key), sortedKeys(b.ids, key)
	if !slices.Equal(x, y) {
		return fmt.Errorf("selects %d signals, then %d", len(x), len(y))
	}
	return nil
}

func sortedKeys[T any](list []T, key func(T) string) (out []string) {
	for _, v := range list {
		out = append(out, key(v))
	}
	slices.Sort(out)
	return
}

// entries are the ways to evaluate a text.
var entries = []struct {
	name string
	run  func(ds *data.DataSet, dt *data.DataTable, text string) outcome
}{
	{"EvaluateExpression", func(ds *data.DataSet, dt *data.DataTable, text string) (o outcome) {
		o.v, o.err = data.EvaluateExpression(text, true)
		return
	}},
	{"EvaluateDataRowExpression", func(ds *data.DataSet, dt *data.DataTable, text string) (o outcome) {
		o.v, o.err = data.EvaluateDataRowExpression(dt.Row(0), text, true)
		return
	}},
	{"SelectDataRows", func(ds *data.DataSet, dt *data.DataTable, text string) (o outcome) {
		o.rows, o.err = data.SelectDataRows(ds, text, dt.Name(), nil, true)
		return
	}},
	{"SelectSignalIDSet", func(ds *data.DataSet, dt *data.DataTable, text string) (o outcome) {
		set, err := data.SelectSignalIDSet(ds, text, dt.Name(), &data.TableIDFields{SignalIDFieldName: "ColGuid", MeasurementKeyFieldName: "ColString", PointTagFieldName: "String_2"}, true)
		return outcome{err: err, ids: set.Keys()}
	}},
	{"Select", func(ds *data.DataSet, dt *data.DataTable, text string) (o outcome) {
		o.rows, o.err = dt.Select(text, "", -1)
		return
	}},
	{"Select sorted", func(ds *data.DataSet, dt *data.DataTable, text string) (o outcome) {
		o.rows, o.err = dt.Select("True", text, 3)
		return
	}},
	{"GenerateExpressionTrees", func(ds *data.DataSet, dt *data.DataTable, text string) (o outcome) {
		trees, err := data.GenerateExpressionTrees(ds, dt.Name(), text, true)
		if err != nil {
			return outcome{err: err}
		}
		for _, tree := range trees {
			rows, err := tree.Select(dt)
			if err != nil {
				return outcome{err: err}
			}
			o.rows = append(o.rows, rows...)
		}
		return
	}},
}

// c22Text is any text and the rows it is evaluated on.
type c22Text struct {
	Text     string
	Computed []string // expressions of computed columns
	Rows     [][]cell
	Entry    int
	Bad      bool `json:",omitempty"` // the text is not a filter expression
}

// build creates the table, with computed columns Calc1, Calc2, ...
func (c c22Text) build() (*data.DataSet, *data.DataTable, tableSpec, error) {
	ds := data.NewDataSet()
	spec := tableSpec{Name: "Rows", Cols: slices.Clone(xcols)}
	for i, e := range c.Computed {
		spec.Cols = append(spec.Cols, colSpec{Name: fmt.Sprintf("Calc%d", i+1), Type: (len(e) + i) % len(typeNames), Expr: e})
	}
	for _, r := range c.Rows {
		spec.Rows = append(spec.Rows, append(slices.Clone(r), make([]cell, len(c.Computed))...))
	}
	dt, err := spec.build(ds)
	return ds, dt, spec, err
}

// unchanged verifies that the table still has its content.
func (ts tableSpec) unchanged(ds *data.DataSet, dt *data.DataTable) error {
	if ds.TableCount() != 1 || ds.Table(ts.Name) != dt {
		return fmt.Errorf("the data set has changed")
	}
	if dt.ColumnCount() != len(ts.Cols) || dt.RowCount() != len(ts.Rows) {
		return fmt.Errorf("the table has %d columns and %d rows, expected %d and %d", dt.ColumnCount(), dt.RowCount(), len(ts.Cols), len(ts.Rows))
	}
	for i, col := range ts.Cols {
		if c := dt.Column(i); c.Name() != col.Name || int(c.Type()) != col.Type || c.Expression() != col.Expr {
			return fmt.Errorf("column %s has changed", col.Name)
		}
	}
	for r, row := range ts.Rows {
		for i, col := range ts.Cols {
			if col.Expr != "" {
				continue
			}
			v, err := dt.Row(r).Value(i)
			if err != nil {
				return fmt.Errorf("%s of row %d fails: %v", col.Name, r, err)
			}
			var want any
			if !row[i].Null {
				want, _ = goValue(col.Type, row[i].text())
			}
			if !sameValue(want, v) {
				return fmt.Errorf("%s of row %d is %v, expected %v", col.Name, r, v, want)
			}
		}
	}
	return nil
}

func execC22Text(c c22Text, o *vk.Obs) error {
	ds, dt, spec, err := c.build()
	if err != nil {
		return err
	}
	calc := func() (list []string) {
		for i := range c.Computed {
			v, err := dt.Row(0).Value(len(xcols) + i)
			list = append(list, fmt.Sprintf("%v %v", v, err != nil))
		}
		return
	}
	before := calc()
	for i, e := range entries {
		if i != c.Entry%len(entries) && i != 2 {
			continue
		}
		first := e.run(ds, dt, c.Text)
		if first.err != nil {
			o.Label("%s: rejected", e.name)
		} else {
			o.Label("%s: evaluated", e.name)
			o.NonTrivial()
		}
		if c.Text == "" && first.err == nil && !strings.HasPrefix(e.name, "Select ") && e.name != "Select" {
			return fmt.Errorf("%s of an empty text does not fail", e.name)
		}
		if c.Bad {
			if e.name != "Select sorted" && first.err == nil {
				return fmt.Errorf("%s of %s does not fail", e.name, c.Text)
			}
			o.NonTrivial()
		}
		if err := first.same(e.run(ds, dt, c.Text)); err != nil {
			return fmt.Errorf("%s of %s, again, %v", e.name, c.Text, err)
		}
		if err := spec.unchanged(ds, dt); err != nil {
			return fmt.Errorf("after %s of %s, %v", e.name, c.Text, err)
		}
	}
	// one parser evaluated twice
	p, err := data.NewFilterExpressionParserForDataSet(ds, c.Text, "Rows", nil, true)
	if err == nil {
		run := func() (o outcome) {
			o.err = p.Evaluate(true, true)
			o.rows = p.FilteredRows()
			return
		}
		syntax := 0
		p.SetParsingExceptionCallback(func(string) { syntax++ })
		first := run()
		if syntax > 0 && first.err == nil {
			return fmt.Errorf("%s is evaluated although %d errors of syntax are reported", c.Text, syntax)
		}
		if err := first.same(run()); err != nil {
			return fmt.Errorf("evaluating %s a second time %v", c.Text, err)
		}
		for _, r := range first.rows {
			if first.err == nil && (r == nil || r.Parent() != dt) {
				return fmt.Errorf("%s selects a row of no table", c.Text)
			}
		}
	}
	for i, f := range []func() error{
		func() error { _, err := data.GenerateExpressionTrees(nil, "Rows", c.Text, true); return err },
		func() error { _, err := data.GenerateExpressionTreesFromTable(nil, c.Text, true); return err },
		func() error { _, err := data.GenerateExpressionTree(nil, c.Text, true); return err },
		func() error { _, err := data.EvaluateDataRowExpression(nil, c.Text, true); return err },
		func() error { _, err := data.SelectDataRows(nil, c.Text, "Rows", nil, true); return err },
		func() error { _, err := data.SelectDataRowsFromTable(nil, c.Text, "Rows", nil, true); return err },
		func() error { _, err := data.SelectDataRowSet(nil, c.Text, "Rows", nil, true); return err },
		func() error { _, err := data.SelectDataRowSetFromTable(nil, c.Text, nil, true); return err },
		func() error { _, err := data.SelectSignalIDSet(nil, c.Text, "Rows", nil, true); return err },
		func() error { _, err := data.SelectSignalIDSetFromTable(nil, c.Text, "Rows", nil, true); return err },
		func() error { return data.NewFilterExpressionParser(c.Text, true).Evaluate(true, true) },
		func() error { _, err := data.NewFilterExpressionParser(c.Text, true).Table("Rows"); return err },
	} {
		if i%len(entries) == c.Entry && f() == nil {
			return fmt.Errorf("%s without data does not fail (entry %d)", c.Text, i)
		}
	}
	if after := calc(); !slices.Equal(before, after) {
		return fmt.Errorf("computed columns %v are %v, then %v", c.Computed, before, after)
	}
	return nil
}

var soup = append([]string{
	"(", ")", "(", ")", ",", ";", "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", "<=", ">", ">=", "=", "==", "===", "!=", "!==", "<>", "!", "~", "&&", "||", ".", ":", "#", "'", "\"", "{", "}", "[", "]", "`", "@", "$", "?", "\\", "--", "/*", "*/",
	"AND", "OR", "XOR", "NOT", "LIKE", "IN", "IS", "NULL", "BINARY", "FILTER", "TOP", "WHERE", "ORDER", "BY", "ASC", "DESC", "True", "False",
	"FILTER Rows WHERE", "FILTER TOP 2 Rows WHERE", "ORDER BY", "Rows", "Nope", "ColInt32", "ColString", "[ColBoolean]", "ColGuid", "ColDateTime", "Calc1", "Calc2",
	"0", "1", "2", "2147483648", "9223372036854775808", "0x7F", "0xFFFFFFFFFFFFFFFF", "1.5", ".5", "1.", "1E3", "1e400", "1e999999999", "'a'", "''", "'%a%'", "'1e999999999'", "#2020-01-01#", "#x#", "##", "{00000000-0000-0000-0000-000000000001}", "00000000-0000-0000-0000-000000000002", "PPA:1", "\"TAG\"",
	" ", "\n", "\t", "\x00", "\xff", "é", "中", "😀", " ", "-- c\n", "/* c */",
}, xfuncNames()...)

func xfuncNames() (names []string) {
	for n := range xarity {
		if !strings.EqualFold(n, "Now") && !strings.EqualFold(n, "UtcNow") {
			names = append(names, n, n+"(")
		}
	}
	slices.Sort(names)
	return
}

func genSoup(t *rapid.T) string {
	var b strings.Builder
	for i := rapid.IntRange(1, 40).Draw(t, "tokens"); i > 0; i-- {
		b.WriteString(rapid.SampledFrom(soup).Draw(t, "token"))
		if rapid.IntRange(0, 5).Draw(t, "space") > 0 {
			b.WriteString(" ")
		}
	}
	return b.String()
}

// genFilter draws a valid filter expression, and its conditions.
func genFilter(t *rapid.T) (string, []xnode) {
	g := &xgen{t: t, ops: true, cols: true, nulls: rapid.Bool().Draw(t, "nulls"), fns: rapid.Bool().Draw(t, "fns"), chaos: rapid.SampledFrom([]int{0, 0, 10}).Draw(t, "chaos")}
	var parts []string
	var conds []xnode
	for i := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "stmts"); i > 0; i-- {
		e := g.expr(g.anyType(), rapid.IntRange(0, 3).Draw(t, "depth"))
		if rapid.Bool().Draw(t, "bool") {
			e = g.op(xBool, rapid.IntRange(1, 3).Draw(t, "depth"))
		}
		conds = append(conds, e)
		s := e.statement()
		if rapid.Bool().Draw(t, "filter") {
			st := c21Stmt{Kind: "filter", N: -1, Cond: e, Alt: rapid.IntRange(0, 23).Draw(t, "alt")}
			s = strings.NewReplacer(c21Main, "Rows", strings.ToUpper(c21Main), "ROWS", strings.ToLower(c21Main), "rows").Replace(st.text())
			if rapid.Bool().Draw(t, "order") {
				s += " ORDER BY " + rapid.SampledFrom(xcols).Draw(t, "by").Name + rapid.SampledFrom([]string{"", " DESC", " asc"}).Draw(t, "dir")
			}
		}
		parts = append(parts, s)
	}
	return strings.Join(parts, "; "), conds
}

// mutate changes tokens of a text.
func mutate(t *rapid.T, s string) string {
	list, _ := tokens(s)
	for i := rapid.SampledFrom([]int{0, 0, 1, 1, 1, 2, 4}).Draw(t, "mutations"); i > 0 && len(list) > 0; i-- {
		at := rapid.IntRange(0, len(list)-1).Draw(t, "at")
		switch rapid.IntRange(0, 5).Draw(t, "mutation") {
		case 0:
			list = slices.Delete(slices.Clone(list), at, at+1)
		case 1:
			list = slices.Insert(slices.Clone(list), at, list[at])
		case 2:
			to := rapid.IntRange(0, len(list)-1).Draw(t, "to")
			list[at], list[to] = list[to], list[at]
		case 3:
			list[at] = rapid.SampledFrom(soup).Draw(t, "token")
		case 4:
			list = slices.Insert(slices.Clone(list), at, rapid.SampledFrom(soup).Draw(t, "token"))
		case 5:
			if tok := list[at]; len(tok) > 1 {
				list[at] = tok[:rapid.IntRange(0, len(tok)-1).Draw(t, "cut")]
			}
		}
	}
	return strings.Join(list, " ")
}

var c22Computed = []string{"Calc1", "Calc2", "Calc1 + 1", "ColInt32 + 1", "ColString + 'x'", "IIf(ColBoolean, Calc2, 0)", "Coalesce(ColInt64, Calc1)", "ColInt32 / 0", "(", "Nope", "ColString", "'a' LIKE Calc2", "ColDateTime", "NULL", "Convert(ColString, 'Int32')", "ColGuid"}

func genC22Rows(t *rapid.T, conds []xnode) [][]cell {
	extra := []xnode{}
	for _, n := range []string{"ColInt32", "ColString", "ColBoolean", "ColGuid", "ColDateTime", "ColInt64"} {
		extra = append(extra, xnode{K: "col", S: n})
	}
	return genXRows(t, append(extra, conds...), rapid.Bool().Draw(t, "nulls"), 4)
}

func genC22Text(t *rapid.T) (c c22Text) {
	c.Entry = rapid.IntRange(0, len(entries)-1).Draw(t, "entry")
	var conds []xnode
	switch rapid.IntRange(0, 7).Draw(t, "kind") {
	case 0:
		c.Text = rapid.String().Draw(t, "text")
	case 1, 2:
		c.Text = genSoup(t)
	case 3:
		c.Text = "FILTER Rows WHERE " + genSoup(t)
	default:
		c.Text, conds = genFilter(t)
		c.Text = mutate(t, c.Text)
	}
	// texts that take the current time or grow without limit are left out
	if upper := strings.ToUpper(c.Text); strings.Contains(upper, "NOW") || strings.Count(upper, "POWER") > 1 {
		c.Text = "1"
	}
	for i := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "computed"); i > 0; i-- {
		e := rapid.SampledFrom(c22Computed).Draw(t, "expr")
		if rapid.IntRange(0, 5).Draw(t, "soup") == 0 {
			e = c.Text
		}
		c.Computed = append(c.Computed, e)
	}
	if len(c.Text) == 0 {
		c.Computed = nil
	}
	c.Rows = genC22Rows(t, conds)
	return
}

// genC22Bad draws a text that is not a filter expression.
func genC22Bad(t *rapid.T) (c c22Text) {
	c.Bad = true
	c.Entry = rapid.IntRange(0, len(entries)-1).Draw(t, "entry")
	s, conds := genFilter(t)
	op := rapid.SampledFrom([]string{"*", "/", "%", "=", "===", "<", ">=", "<<", "AND", "or", "LIKE", "IN", "IS", "&", "^"}).Draw(t, "op")
	switch rapid.IntRange(0, 12).Draw(t, "damage") {
	case 0:
		s = "(" + s
	case 1:
		s += ")"
	case 2:
		s += " " + op
	case 3:
		s = op + " " + s
	case 4:
		s += rapid.SampledFrom([]string{" 5", " 'x'", " ColInt32 ColInt32", " ,5", " #2020-01-01#", " (1)"}).Draw(t, "extra")
	case 5:
		s += "; Nope = 1"
	case 6:
		s += "; Nope(1)"
	case 7:
		s += "; FILTER Nope WHERE True"
	case 8:
		s += "; FILTER Rows WHERE True ORDER BY Nope"
	case 9:
		s += "; " + rapid.SampledFrom([]string{"FILTER Rows", "FILTER WHERE True", "FILTER TOP Rows WHERE True", "FILTER TOP x Rows WHERE True", "FILTER Rows WHERE", "FILTER Rows WHERE True ORDER ColInt32", "FILTER Rows WHERE True ORDER BY", "FILTER Rows ORDER BY ColInt32 WHERE True", "FILTER TOP 1.5 Rows WHERE True", "SELECT Rows WHERE True"}).Draw(t, "statement")
	case 10:
		s += "; " + rapid.SampledFrom([]string{"Len", "Len(", "Len)", "Len('a'", "Len 'a'", "IIf(True,1,)", "1 IN ()", "1 IN 1", "1 NOT 2", "1 IS 2", "1 +", "* 1", "1 2", "()", "1 = = 1", "ColInt32 ColInt64", "1 AND", "NOT", "-", "1 LIKE", "[ColInt32", "'a", "#2020-01-01", "{00000000-0000-0000-0000-00000000000}", "1 ?", "@x"}).Draw(t, "expression")
	case 11:
		// leave out one parenthesis
		list, apart := tokens(s)
		var at []int
		for i, tok := range list {
			if tok == "(" || tok == ")" {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			s = ")" + s
			break
		}
		drop := rapid.SampledFrom(at).Draw(t, "drop")
		s = ""
		for i, tok := range list {
			if i == drop {
				tok = " "
			}
			if apart[i] {
				s += " "
			}
			s += tok
		}
	case 12:
		s += "; [ColNope] IS NULL"
	}
	c.Text = s
	c.Rows = genC22Rows(t, conds)
	return
}

// c22Variant is an expression in two spellings.
type c22Variant struct {
	Exprs []xnode
	Other []xnode
	Gaps  []int
	Rows  [][]cell
}

func execC22Variant(c c22Variant, o *vk.Obs) error {
	_, dt, err := xcase{c.Exprs, c.Rows}.table("Rows")
	if err != nil {
		return err
	}
	var texts [2][]string
	for i := range c.Exprs {
		texts[0] = append(texts[0], c.Exprs[i].statement())
		texts[1] = append(texts[1], c.Other[i].statement())
	}
	var joined [2]string
	var trees [2][]*data.ExpressionTree
	var errs [2]error
	for k := range texts {
		joined[k] = strings.Join(texts[k], "; ")
		if k == 1 {
			joined[k] = spaced(joined[k], c.Gaps)
		}
		trees[k], errs[k] = data.GenerateExpressionTreesFromTable(dt, joined[k], true)
	}
	if (errs[0] == nil) != (errs[1] == nil) {
		return fmt.Errorf("%s gives %v, but %s gives %v", joined[0], errs[0], joined[1], errs[1])
	}
	if errs[0] != nil {
		o.Label("rejected")
		return nil
	}
	if len(trees[0]) != len(c.Exprs) || len(trees[1]) != len(c.Exprs) {
		return fmt.Errorf("%s gives %d expressions, %s %d", joined[0], len(trees[0]), joined[1], len(trees[1]))
	}
	o.NonTrivial()
	for i := range c.Exprs {
		for r := range c.Rows {
			var out [2]outcome
			for k := range trees {
				out[k].v, out[k].err = trees[k][i].Evaluate(dt.Row(r))
			}
			if err := out[0].same(out[1]); err != nil {
				return fmt.Errorf("%s, written as %s, %v (row %d)", texts[0][i], joined[1], err, r)
			}
			again := outcome{}
			if again.v, again.err = trees[0][i].Evaluate(dt.Row(r)); again.same(out[0]) != nil {
				return fmt.Errorf("%s, evaluated again, %v (row %d)", texts[0][i], again.same(out[0]), r)
			}
			if out[0].err != nil {
				o.Label("error")
			} else {
				o.Label("value")
			}
		}
	}
	return nil
}

// c22Query is a filter expression in two spellings.
type c22Query struct {
	C     c21Case
	Other []c21Stmt
	Gaps  []int
}

func execC22Query(q c22Query, o *vk.Obs) error {
	c := q.C
	ds := data.NewDataSet()
	for i, rows := range [][][]cell{c.Main, c.Other} {
		if _, err := (tableSpec{Name: []string{c21Main, c21Other}[i], Cols: c.cols(), Rows: rows}).build(ds); err != nil {
			return err
		}
	}
	fields := &data.TableIDFields{SignalIDFieldName: c.Fields[0], MeasurementKeyFieldName: c.Fields[1], PointTagFieldName: c.Fields[2]}
	var text [2]string
	for k, list := range [][]c21Stmt{c.Stmts, q.Other} {
		var parts []string
		for _, s := range list {
			parts = append(parts, s.text())
		}
		text[k] = strings.Join(parts, "; ")
	}
	text[1] = spaced(text[1], q.Gaps)
	var out [2]outcome
	for k := range text {
		out[k].rows, out[k].err = data.SelectDataRows(ds, text[k], c21Main, fields, true)
	}
	if err := out[0].same(out[1]); err != nil {
		return fmt.Errorf("%s, written as %s, %v", text[0], text[1], err)
	}
	if out[0].err != nil {
		o.Label("error")
	} else {
		o.Label("selected")
		o.NonTrivial()
	}
	return nil
}

func TestC22(t *testing.T) {
	vk.Run(t, vk.Spec[c22Text]{
		ID: "C22", Name: "texts", Rule: "random text, token sequences and mutated filter expressions, with computed columns that may be invalid or refer to themselves, through an entry point and SelectDataRows, twice; non-trivial: evaluated by an entry point",
		Quick: 5000, Deep: 120000, Exec: execC22Text, Gen: genC22Text,
	})
	vk.Run(t, vk.Spec[c22Text]{
		ID: "C22", Name: "invalid", Rule: "filter expressions with an error of syntax or an unknown name; non-trivial: all",
		Quick: 2500, Deep: 60000, Exec: execC22Text, Gen: genC22Bad,
	})
	vk.Run(t, vk.Spec[c22Variant]{
		ID: "C22", Name: "spellings", Rule: "expressions in two spellings that differ in white space, comments, case, delimiters, operator synonyms and redundant parentheses; non-trivial: both parse",
		Quick: 4000, Deep: 100000, Exec: execC22Variant,
		Gen: func(t *rapid.T) (c c22Variant) {
			g := &xgen{t: t, fns: true, ops: true, cols: true, nulls: rapid.Bool().Draw(t, "nulllits"), chaos: 1}
			for i := rapid.IntRange(1, 3).Draw(t, "exprs"); i > 0; i-- {
				e := g.expr(g.anyType(), rapid.IntRange(1, 3).Draw(t, "depth"))
				c.Exprs = append(c.Exprs, e)
				c.Other = append(c.Other, respell(t, e))
			}
			c.Gaps = genGaps(t)
			c.Rows = genXRows(t, c.Exprs, true, 4)
			return
		},
	})
	vk.Run(t, vk.Spec[c22Query]{
		ID: "C22", Name: "queries", Rule: "filter statements and identifiers in two spellings; non-trivial: both select",
		Quick: 2000, Deep: 40000, Exec: execC22Query,
		Gen: func(t *rapid.T) (q c22Query) {
			q.C = genC21(t)
			for _, s := range q.C.Stmts {
				s.Alt = rapid.IntRange(0, 23).Draw(t, "alt")
				if isFilter(s) {
					s.Cond = respell(t, s.Cond)
				} else if s.Kind != "id" {
					s.Name = flip(t, s.Name)
				}
				s.Order = slices.Clone(s.Order)
				for i := range s.Order {
					s.Order[i].Alt = rapid.IntRange(0, 23).Draw(t, "alt")
				}
				q.Other = append(q.Other, s)
			}
			q.Gaps = genGaps(t)
			return
		},
	})
}
