package props

import (
	"bytes"
	"cmp"
	"errors"
	"fmt"
	"slices"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
	"pgregory.net/rapid"
	"verif/harness/vk"
)

// c21Term is a term of an ORDER BY list.
type c21Term struct {
	Col   string
	Desc  bool `json:",omitempty"`
	Exact bool `json:",omitempty"`
	Alt   int  `json:",omitempty"`
}

// c21Stmt is a statement of a filter expression.
type c21Stmt struct {
	Kind  string // filter, expr, id, key, tag
	Other bool   `json:",omitempty"` // filters the other table
	Top   string `json:",omitempty"`
	N     int    // value of Top; -1 without limit
	Cond  xnode
	Order []c21Term `json:",omitempty"`
	Name  string    `json:",omitempty"` // identifier
	Alt   int       `json:",omitempty"`
}

// c21Case is a data set of two tables and a filter expression.
type c21Case struct {
	Fields [3]string // names of the ID columns
	Main   [][]cell
	Other  [][]cell
	Stmts  []c21Stmt
	Mode   int
	Limit  bool
	Sort   bool
	Times  int `json:",omitempty"` // rows are repeated up to so many
}

const c21Main, c21Other = "ActiveMeasurements", "OtherRows"

func (c c21Case) cols() []colSpec {
	return append([]colSpec{{Name: c.Fields[0], Type: tGuid}, {Name: c.Fields[1]}, {Name: c.Fields[2]}}, xcols...)
}

func (s c21Stmt) table() string {
	if s.Other {
		return c21Other
	}
	return c21Main
}

func (s c21Stmt) order() string {
	var terms []string
	for _, o := range s.Order {
		kw := xkeyword[o.Alt/8%3]
		x := xnode{K: "col", S: o.Col, Alt: o.Alt}.text()
		if o.Exact {
			x = pick([]string{kw("BINARY") + " ", "=== "}, o.Alt) + x
		}
		if o.Desc {
			x += " " + kw("DESC")
		} else if o.Alt%3 == 0 {
			x += " " + kw("ASC")
		}
		terms = append(terms, x)
	}
	return strings.Join(terms, pick([]string{", ", ","}, len(terms)+s.Alt))
}

func (s c21Stmt) text() string {
	kw := xkeyword[s.Alt/8%3]
	switch s.Kind {
	case "expr":
		return s.Cond.statement()
	case "id":
		return xnode{K: "lit", T: xGuid, S: s.Name, Alt: s.Alt}.text()
	case "key":
		return s.Name
	case "tag":
		return `"` + s.Name + `"`
	}
	x := kw("FILTER") + " "
	if s.Top != "" {
		x += kw("TOP") + " " + s.Top + " "
	}
	x += xnode{K: "col", S: s.table(), Alt: s.Alt}.text() + " " + kw("WHERE") + " " + s.Cond.text()
	if len(s.Order) > 0 {
		x += " " + kw("ORDER") + " " + kw("BY") + " " + s.order()
	}
	return x
}

// c21Rows is the reference: row numbers of the main table, or of the other table counted from c21Base.
const c21Base = 1 << 20

func (c c21Case) row(n int) []cell {
	if n >= c21Base {
		return c.Other[n-c21Base]
	}
	return c.Main[n]
}

// match gives the rows a statement matches without limit, in table order.
func (c c21Case) match(s c21Stmt) (rows []int, bad xout, other bool) {
	list, base := c.Main, 0
	if s.Other {
		list, base = c.Other, c21Base
	}
	for i, r := range list {
		hit := false
		switch s.Kind {
		case "id":
			hit = !r[0].Null && strings.EqualFold(r[0].S, s.Name)
		case "key":
			hit = !r[1].Null && strings.EqualFold(r[1].S, s.Name)
		case "tag":
			hit = !r[2].Null && strings.EqualFold(r[2].S, s.Name)
		default:
			v := rowEnv(r[3:]).eval1(s.Cond, -1)
			if v.bad() {
				return nil, v, false
			}
			other = other || v.T != xBool || v.NoType
			hit = v.truth()
		}
		if hit {
			rows = append(rows, base+i)
		}
	}
	return
}

func isFilter(s c21Stmt) bool { return s.Kind == "filter" || s.Kind == "expr" }

// compareCells orders two values of a column: nulls first, then by value.
func compareCells(typ int, a, b cell, exact bool, fold func(string) string) int {
	switch {
	case a.Null && b.Null:
		return 0
	case a.Null:
		return -1
	case b.Null:
		return 1
	}
	x, _ := goValue(typ, a.text())
	y, _ := goValue(typ, b.text())
	switch v := x.(type) {
	case string:
		if exact {
			return strings.Compare(v, y.(string))
		}
		return strings.Compare(fold(v), fold(y.(string)))
	case bool:
		return int(boolInt(v) - boolInt(y.(bool)))
	case time.Time:
		return v.Compare(y.(time.Time))
	case float32:
		return cmp.Compare(v, y.(float32))
	case float64:
		return cmp.Compare(v, y.(float64))
	case decimal.Decimal:
		return v.Rat().Cmp(y.(decimal.Decimal).Rat())
	case guid.Guid:
		g := y.(guid.Guid)
		return bytes.Compare(v[:], g[:])
	case int64:
		return cmp.Compare(v, y.(int64))
	case uint64:
		return cmp.Compare(v, y.(uint64))
	case int8:
		return cmp.Compare(v, y.(int8))
	case int16:
		return cmp.Compare(v, y.(int16))
	case int32:
		return cmp.Compare(v, y.(int32))
	case uint8:
		return cmp.Compare(v, y.(uint8))
	case uint16:
		return cmp.Compare(v, y.(uint16))
	case uint32:
		return cmp.Compare(v, y.(uint32))
	}
	panic("unknown type")
}

func (c c21Case) compare(terms []c21Term, a, b int, fold func(string) string) int {
	for _, o := range terms {
		i := slices.IndexFunc(c.cols(), func(s colSpec) bool { return s.Name == o.Col })
		r := compareCells(c.cols()[i].Type, c.row(a)[i], c.row(b)[i], o.Exact, fold)
		if o.Desc {
			r = -r
		}
		if r != 0 {
			return r
		}
	}
	return 0
}

// c21View is how the selection is asked for and which of the accepted readings to apply.
type c21View struct {
	limit, sort bool
	idsFirst    bool // rows named by identifiers come before the others
	sortFirst   bool // the limit applies after sorting
	fold        func(string) string
}

// verify compares the rows selected by all statements with the reference.
func (c c21Case) verify(got []int, matches [][]int, v c21View) error {
	order := make([]int, len(c.Stmts))
	for i := range order {
		order[i] = i
	}
	if v.idsFirst {
		sort.SliceStable(order, func(i, j int) bool { return !isFilter(c.Stmts[order[i]]) && isFilter(c.Stmts[order[j]]) })
	}
	seen := map[int]bool{}
	at := 0
	for _, i := range order {
		s := c.Stmts[i]
		rows := slices.Clone(matches[i])
		sorted := v.sort && len(s.Order) > 0
		if v.limit && s.N >= 0 && len(rows) > s.N {
			if sorted && v.sortFirst {
				sort.SliceStable(rows, func(i, j int) bool { return c.compare(s.Order, rows[i], rows[j], v.fold) < 0 })
			}
			rows = rows[:s.N]
		}
		rows = slices.DeleteFunc(rows, func(r int) bool { return seen[r] })
		for _, r := range rows {
			seen[r] = true
		}
		if at+len(rows) > len(got) {
			return fmt.Errorf("selects rows %v, expected statement %d to add %v", got, i+1, rows)
		}
		part := got[at : at+len(rows)]
		at += len(rows)
		if !sorted {
			if !slices.Equal(part, rows) {
				return fmt.Errorf("selects rows %v, expected statement %d to add %v", got, i+1, rows)
			}
			continue
		}
		if !slices.Equal(slices.Sorted(slices.Values(part)), slices.Sorted(slices.Values(rows))) {
			return fmt.Errorf("selects rows %v, expected statement %d to add %v in some order", got, i+1, rows)
		}
		for k := 1; k < len(part); k++ {
			if c.compare(s.Order, part[k-1], part[k], v.fold) > 0 {
				return fmt.Errorf("selects rows %v, statement %d has row %d before row %d", got, i+1, part[k-1], part[k])
			}
		}
	}
	if at != len(got) {
		return fmt.Errorf("selects rows %v, expected only %v", got, got[:at])
	}
	return nil
}

// accept verifies under each accepted reading and reports the difference to the usual one.
func (c c21Case) accept(got []int, matches [][]int, limit, sort bool) (first error) {
	for i := 0; i < 8; i++ {
		v := c21View{limit, sort, i&1 == 0, i&2 != 0, strings.ToUpper}
		if i&4 != 0 {
			v.fold = strings.ToLower
		}
		err := c.verify(got, matches, v)
		if err == nil {
			return nil
		}
		if first == nil {
			first = err
		}
	}
	return
}

// selected gives the set of rows selected without regard to order.
func (c c21Case) selected(matches [][]int, limit bool) map[int]bool {
	set := map[int]bool{}
	for i, s := range c.Stmts {
		rows := matches[i]
		if limit && s.N >= 0 && len(rows) > s.N {
			rows = rows[:s.N]
		}
		for _, r := range rows {
			set[r] = true
		}
	}
	return set
}

// signals gives the signals of selected rows and those named directly.
func (c c21Case) signals(rows map[int]bool) map[guid.Guid]bool {
	set := map[guid.Guid]bool{}
	for r := range rows {
		if id := c.row(r)[0]; !id.Null {
			g, _ := parseGUID(id.S)
			set[g] = true
		}
	}
	for _, s := range c.Stmts {
		if s.Kind == "id" {
			g, _ := parseGUID(s.Name)
			set[g] = true
		}
	}
	delete(set, guid.Guid{})
	return set
}

func execC21(c c21Case, o *vk.Obs) error {
	for _, rows := range []*[][]cell{&c.Main, &c.Other} {
		for n, i := len(*rows), 0; n > 0 && len(*rows) < c.Times; i++ {
			r := slices.Clone((*rows)[i%n])
			if !r[0].Null {
				r[0].S = formatGUID(guidOf(uint32(1<<24 + i)))
			}
			r[1], r[2] = cell{S: fmt.Sprintf("ROW:%d", i)}, cell{S: fmt.Sprintf("ROW-%d", i)}
			*rows = append(*rows, r)
		}
	}
	ds := data.NewDataSet()
	number := map[*data.DataRow]int{}
	for i, rows := range [][][]cell{c.Main, c.Other} {
		dt, err := tableSpec{Name: []string{c21Main, c21Other}[i], Cols: c.cols(), Rows: rows}.build(ds)
		if err != nil {
			return err
		}
		for k := range rows {
			number[dt.Row(k)] = i*c21Base + k
		}
	}
	main := ds.Table(c21Main)
	var texts []string
	var matches [][]int
	other, top, sorted, limited, onOther := false, false, false, false, false
	for _, s := range c.Stmts {
		rows, bad, notBool := c.match(s)
		if bad.bad() {
			o.Label("undefined condition")
			return nil
		}
		other = other || notBool
		texts = append(texts, s.text())
		matches = append(matches, rows)
		top = top || s.N >= 0
		limited = limited || s.N >= 0 && s.N < len(rows)
		sorted = sorted || len(s.Order) > 0 && len(rows) > 1
		onOther = onOther || s.Other
		o.Label("%s", s.Kind)
	}
	text := strings.Join(texts, pick([]string{"; ", ";", " ; "}, c.Mode))
	if c.Mode%5 == 0 {
		text += ";"
	}
	fields := &data.TableIDFields{SignalIDFieldName: c.Fields[0], MeasurementKeyFieldName: c.Fields[1], PointTagFieldName: c.Fields[2]}
	pass := fields
	if *fields == *data.DefaultTableIDFields && c.Mode%2 == 0 {
		pass = nil
	}
	numbers := func(rows []*data.DataRow) (list []int) {
		for _, r := range rows {
			n, ok := number[r]
			if !ok {
				n = -1
			}
			list = append(list, n)
		}
		return
	}

	// rows
	var rows []*data.DataRow
	var err error
	if c.Mode%3 == 0 {
		rows, err = data.SelectDataRowsFromTable(main, text, c21Main, pass, true)
	} else {
		rows, err = data.SelectDataRows(ds, text, c21Main, pass, true)
	}
	if err != nil {
		return fmt.Errorf("%s fails: %v", text, err)
	}
	if err := c.accept(numbers(rows), matches, true, true); err != nil {
		return fmt.Errorf("%s %v", text, err)
	}

	// rows and signals of a parser
	p, err := data.NewFilterExpressionParserForDataSet(ds, text, c21Main, pass, true)
	if err != nil {
		return fmt.Errorf("%s fails: %v", text, err)
	}
	p.TableIDFields[c21Other] = fields
	p.TrackFilteredSignalIDs = true
	p.TrackFilteredRows = c.Mode%4 != 0
	for round := 0; round < 2; round++ { // again gives the same
		if err := p.Evaluate(c.Limit, c.Sort); err != nil {
			return fmt.Errorf("%s fails: %v", text, err)
		}
		ambiguous := c.Limit && c.Sort && top && sorted // which rows a limit leaves
		if p.TrackFilteredRows {
			if err := c.accept(numbers(p.FilteredRows()), matches, c.Limit, c.Sort); err != nil {
				return fmt.Errorf("Evaluate(%v, %v) of %s %v", c.Limit, c.Sort, text, err)
			}
			if err := sameKeys(p.FilteredRowSet().Keys(), p.FilteredRows()); err != nil {
				return fmt.Errorf("row set of %s: %v", text, err)
			}
		}
		if n := p.FilterExpressionStatementCount(); n != len(c.Stmts) {
			return fmt.Errorf("%s counts %d statements, expected %d", text, n, len(c.Stmts))
		}
		if !ambiguous {
			want := c.signals(c.selected(matches, c.Limit))
			if err := sameSignals(p.FilteredSignalIDs(), want); err != nil {
				return fmt.Errorf("Evaluate(%v, %v) of %s selects signals: %v", c.Limit, c.Sort, text, err)
			}
			if err := sameSignals(p.FilteredSignalIDSet().Keys(), want); err != nil {
				return fmt.Errorf("signal set of %s: %v", text, err)
			}
		}
	}

	// sets
	switch c.Mode % 4 {
	case 1:
		set, err := data.SelectDataRowSet(ds, text, c21Main, pass, true)
		if c.Mode%3 == 0 {
			set, err = data.SelectDataRowSetFromTable(main, text, pass, true)
		}
		if err != nil {
			return fmt.Errorf("%s fails: %v", text, err)
		}
		want := c.selected(matches, true)
		for _, n := range numbers(set.Keys()) {
			if !want[n] {
				return fmt.Errorf("row set of %s has unexpected row %d", text, n)
			}
		}
		if len(set) != len(want) {
			return fmt.Errorf("row set of %s has %d rows, expected %d", text, len(set), len(want))
		}
	case 2:
		if onOther {
			break
		}
		set, err := data.SelectSignalIDSet(ds, text, c21Main, pass, true)
		if c.Mode%3 == 0 {
			set, err = data.SelectSignalIDSetFromTable(main, text, c21Main, pass, true)
		}
		if err != nil {
			return fmt.Errorf("%s fails: %v", text, err)
		}
		if err := sameSignals(set.Keys(), c.signals(c.selected(matches, true))); err != nil {
			return fmt.Errorf("signal set of %s: %v", text, err)
		}
	case 3:
		if s := c.Stmts[0]; s.Kind == "filter" && !other {
			c.Stmts, matches = c.Stmts[:1], matches[:1]
			rows, err := ds.Table(s.table()).Select(s.Cond.text(), s.order(), s.N)
			if err != nil {
				return fmt.Errorf("Select(%s, %s, %d) fails: %v", s.Cond.text(), s.order(), s.N, err)
			}
			if err := c.accept(numbers(rows), matches, true, true); err != nil {
				return fmt.Errorf("Select(%s, %s, %d) %v", s.Cond.text(), s.order(), s.N, err)
			}
			if err := c.selectWhere(p, ds.Table(s.table()), matches[0], numbers); err != nil {
				return fmt.Errorf("%s: %w", s.text(), err)
			}
			o.Label("predicate")
		}
	}
	if limited {
		o.Label("limited")
	}
	if sorted {
		o.Label("sorted")
	}
	if len(matches) > 1 {
		o.Label("several statements")
	}
	if len(rows) > 1 && (limited || sorted || len(c.Stmts) > 1) {
		o.NonTrivial()
	}
	return nil
}

// selectWhere checks the rows of the first tree of a parser whose value passes a predicate.
func (c c21Case) selectWhere(p *data.FilterExpressionParser, dt *data.DataTable, match []int, numbers func([]*data.DataRow) []int) error {
	trees, err := p.ExpressionTrees()
	if err != nil || len(trees) == 0 {
		return fmt.Errorf("%d trees, error %v", len(trees), err)
	}
	base := 0
	if c.Stmts[0].Other {
		base = c21Base
	}
	var rest []int
	for i := 0; i < dt.RowCount(); i++ {
		if !slices.Contains(match, base+i) {
			rest = append(rest, base+i)
		}
	}
	for _, hit := range []bool{true, false} {
		want := match
		if !hit {
			want = rest
		}
		calls := 0
		rows, err := trees[0].SelectWhere(dt, func(v *data.ValueExpression) (bool, error) {
			calls++
			if v.IsNull() {
				return !hit, nil
			}
			b, err := v.BooleanValue()
			return b == hit, err
		}, c.Limit, c.Sort)
		if err != nil {
			return fmt.Errorf("SelectWhere fails: %v", err)
		}
		if err := c.accept(numbers(rows), [][]int{want}, c.Limit, c.Sort); err != nil {
			return fmt.Errorf("SelectWhere(value is %v, %v, %v) %v", hit, c.Limit, c.Sort, err)
		}
		if calls == 0 || c.Limit && c.Stmts[0].N == 0 || c.Limit && c.Stmts[0].N > 0 && len(want) == 0 {
			continue
		}
		rows, err = trees[0].SelectWhere(dt, func(v *data.ValueExpression) (bool, error) { return true, errors.New("refused") }, c.Limit, c.Sort)
		if err == nil || !strings.Contains(err.Error(), "refused") || len(rows) > 0 {
			return fmt.Errorf("SelectWhere gives %d rows and error %v for a predicate that fails", len(rows), err)
		}
	}
	if rows, err := trees[0].SelectWhere(nil, func(*data.ValueExpression) (bool, error) { return true, nil }, c.Limit, c.Sort); err == nil || len(rows) > 0 {
		return fmt.Errorf("SelectWhere gives %d rows and no error without a table", len(rows))
	}
	if rows, err := trees[0].Select(nil); err == nil || len(rows) > 0 {
		return fmt.Errorf("Select gives %d rows and no error without a table", len(rows))
	}
	return nil
}

func sameKeys(keys, list []*data.DataRow) error {
	set := map[*data.DataRow]bool{}
	for _, r := range list {
		set[r] = true
	}
	for _, r := range keys {
		if !set[r] {
			return fmt.Errorf("has a row that is not in the list of rows")
		}
	}
	if len(keys) != len(set) {
		return fmt.Errorf("%d rows, expected %d", len(keys), len(set))
	}
	return nil
}

func sameSignals(got []guid.Guid, want map[guid.Guid]bool) error {
	seen := map[guid.Guid]bool{}
	for _, g := range got {
		if !want[g] {
			return fmt.Errorf("%v is not expected", g)
		}
		if seen[g] {
			return fmt.Errorf("%v is listed twice", g)
		}
		seen[g] = true
	}
	if len(seen) != len(want) {
		return fmt.Errorf("%d signals, expected %d", len(seen), len(want))
	}
	return nil
}

var (
	c21Tags   = []string{"PMU-1.F", "PMU-1.FREQ", "PMU-10", "PMU-1", "pmu_2", "A", "B", "a.b", "TAG!1", "x@y", "c#d", "e$f", "TVA_SHELBY:ABBA", "1", "12"}
	c21Keys   = []string{"PPA:1", "PPA:10", "PPA:2", "PP-A:1", "A:1", "B:12", "x.y:7", "P_1:3", "PPA:01", "S:4294967295", "T!:5", "T@:5"}
	c21Tagged = func() (list []string) { // the lexer takes these as one token
		for _, s := range c21Tags {
			if !strings.Contains(s, ":") {
				list = append(list, s)
			}
		}
		return
	}()
)

func flip(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 3).Draw(t, "flip") {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	}
	return s
}

func genC21(t *rapid.T) (c c21Case) {
	c.Fields = rapid.SampledFrom([][3]string{{"SignalID", "ID", "PointTag"}, {"SignalID", "ID", "PointTag"}, {"Sig", "MeasurementKey", "Tag"}, {"PointTag", "SignalID", "ID"}}).Draw(t, "fields")
	c.Mode = rapid.IntRange(0, 59).Draw(t, "mode")
	c.Limit = rapid.Bool().Draw(t, "limit")
	c.Sort = rapid.Bool().Draw(t, "sort")
	nulls := rapid.Bool().Draw(t, "nulls")
	g := &xgen{t: t, ops: true, cols: true, nulls: rapid.IntRange(0, 3).Draw(t, "nulllits") == 0, fns: rapid.IntRange(0, 4).Draw(t, "fns") == 0}
	g.nulls = g.nulls && nulls

	var pool []string // columns of ORDER BY terms
	for i := rapid.IntRange(1, 3).Draw(t, "pool"); i > 0; i-- {
		pool = append(pool, xcols[rapid.IntRange(0, len(xcols)-1).Draw(t, "col")].Name)
	}
	var conds []xnode
	count := rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3, 4, 7}).Draw(t, "stmts")
	for i := 0; i < count; i++ {
		s := c21Stmt{N: -1, Alt: rapid.IntRange(0, 23).Draw(t, "alt")}
		s.Kind = rapid.SampledFrom([]string{"filter", "filter", "filter", "filter", "expr", "id", "key", "tag"}).Draw(t, "kind")
		if count == 1 && rapid.IntRange(0, 4).Draw(t, "single") > 0 {
			s.Kind = "filter"
		}
		if isFilter(s) {
			s.Cond = genC21Cond(t, g)
			conds = append(conds, s.Cond)
		}
		if s.Kind == "filter" {
			s.Other = rapid.IntRange(0, 4).Draw(t, "other") == 0
			if rapid.Bool().Draw(t, "top") {
				s.N = rapid.SampledFrom([]int{-1, 0, 1, 1, 2, 2, 3, 3, 4, 5, 8, 30}).Draw(t, "n")
				s.Top = fmt.Sprint(s.N)
				if s.N > 0 && rapid.IntRange(0, 5).Draw(t, "plus") == 0 {
					s.Top = "+" + s.Top
				}
				if s.N < 0 && rapid.Bool().Draw(t, "huge") {
					s.Top = "18446744073709551617" // more than any table holds
				}
			}
			if rapid.IntRange(0, 2).Draw(t, "order") > 0 {
				cols := append([]string{c.Fields[0], c.Fields[1], c.Fields[2]}, pool...)
				for k := rapid.SampledFrom([]int{1, 1, 2, 2, 3, 3, 4, 6}).Draw(t, "terms"); k > 0; k-- {
					s.Order = append(s.Order, c21Term{
						Col:   cols[max(0, rapid.IntRange(-4, len(cols)-1).Draw(t, "ordercol")+4)%len(cols)],
						Desc:  rapid.Bool().Draw(t, "desc"),
						Exact: rapid.IntRange(0, 2).Draw(t, "exact") == 0,
						Alt:   rapid.IntRange(0, 23).Draw(t, "alt"),
					})
				}
			}
		}
		c.Stmts = append(c.Stmts, s)
	}

	// values to choose from, so that columns sorted by have ties
	values := map[string][]cell{}
	for _, name := range pool {
		typ := xcols[slices.IndexFunc(xcols, func(s colSpec) bool { return s.Name == name })].Type
		for k := rapid.IntRange(1, 5).Draw(t, "values"); k > 0; k-- {
			v := genXCell(t, typ, nulls)
			values[name] = append(values[name], v)
			if typ == tString {
				values[name] = append(values[name], cell{Null: v.Null, S: flip(t, v.S)})
			}
		}
	}
	ids := []cell{}
	for k := 1; k <= 30; k++ {
		ids = append(ids, cell{S: formatGUID(guidOf(uint32(k * 7919)))})
	}
	table := func(most int) (rows [][]cell) {
		raw := genXRows(t, conds, nulls, 1)
		n := min(most, rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 8, 12, 18, 25}).Draw(t, "n"))
		ids := rapid.Permutation(ids).Draw(t, "ids")
		tags := rapid.Permutation(c21Tags).Draw(t, "tags")
		keys := rapid.Permutation(c21Keys).Draw(t, "keys")
		for i := 0; i < n; i++ {
			row := raw[0]
			if rapid.IntRange(0, 4).Draw(t, "again") > 0 {
				row = genXRows(t, conds, nulls, 1)[0]
			}
			row = append([]cell{ids[i], {Null: true}, {Null: true}}, row...)
			if i < len(keys) {
				row[1] = cell{S: flip(t, keys[i])}
			}
			if i < len(tags) {
				row[2] = cell{S: flip(t, tags[i])}
			}
			if rapid.IntRange(0, 9).Draw(t, "noid") == 0 {
				row[0] = rapid.SampledFrom([]cell{{Null: true}, {S: formatGUID(guid.Guid{})}}).Draw(t, "id")
			}
			for j, col := range xcols {
				if v := values[col.Name]; v != nil && rapid.IntRange(0, 3).Draw(t, "pooled") > 0 {
					row[3+j] = rapid.SampledFrom(v).Draw(t, "value")
				}
			}
			rows = append(rows, row)
		}
		return
	}
	c.Main = table(25)
	c.Other = table(6)
	for i := range c.Stmts {
		s := &c.Stmts[i]
		var list []string
		switch s.Kind {
		case "id":
			list = []string{ids[0].S, ids[1].S, formatGUID(genGuid(t, "id"))}
		case "key":
			list = c21Keys
		case "tag":
			list = c21Tagged
		default:
			continue
		}
		col := map[string]int{"id": 0, "key": 1, "tag": 2}[s.Kind]
		if len(c.Main) > 0 && rapid.IntRange(0, 3).Draw(t, "known") > 0 {
			if v := rapid.SampledFrom(c.Main).Draw(t, "of")[col]; !v.Null && v.S != formatGUID(guid.Guid{}) && !(s.Kind == "tag" && strings.Contains(v.S, ":")) {
				list = []string{v.S}
			}
		}
		s.Name = flip(t, rapid.SampledFrom(list).Draw(t, "name"))
	}
	return
}

func genC21Large(t *rapid.T) c21Case {
	c := genC21(t)
	c.Times = rapid.SampledFrom([]int{300, 1100, 3000}).Draw(t, "times")
	if rapid.IntRange(0, 2).Draw(t, "identifier") == 0 {
		c.Stmts = append(c.Stmts, rapid.SampledFrom([]c21Stmt{{Kind: "key", Name: "Row:5", N: -1}, {Kind: "tag", Name: "Row-5", N: -1}}).Draw(t, "statement"))
	}
	for i := range c.Stmts {
		if s := &c.Stmts[i]; len(c.Main) > 0 && rapid.Bool().Draw(t, "late") {
			row := c.Times - len(c.Main) - 1 - rapid.IntRange(0, c.Times-len(c.Main)-1).Draw(t, "row")
			switch s.Kind {
			case "key":
				s.Name = fmt.Sprintf("Row:%d", row)
			case "tag":
				s.Name = fmt.Sprintf("Row-%d", row)
			case "id":
				s.Name = formatGUID(guidOf(uint32(1<<24 + row)))
			}
		}
		if s := &c.Stmts[i]; s.N > 2 {
			s.N = rapid.SampledFrom([]int{s.N, 50, 128, 290, 1050, 1100, 5000}).Draw(t, "n")
			s.Top = fmt.Sprint(s.N)
		}
	}
	return c
}

func genC21Cond(t *rapid.T, g *xgen) xnode {
	if rapid.IntRange(0, 3).Draw(t, "all") == 0 {
		return xnode{K: "lit", T: xBool, S: "true"}
	}
	return g.op(xBool, rapid.IntRange(1, 2).Draw(t, "depth"))
}

// c21Pair is two rows, of one table or of two, to be compared column by column.
type c21Pair struct {
	Cols  []colSpec
	Other []int // types of the columns of the second table, none for one table
	Rows  [2][]cell
	Exact bool
}

func execC21Pair(c c21Pair, o *vk.Obs) error {
	ds := data.NewDataSet()
	one := tableSpec{Name: "One", Cols: c.Cols, Rows: [][]cell{c.Rows[0]}}
	two := tableSpec{Name: "Two", Rows: [][]cell{c.Rows[1]}}
	for i, typ := range c.Other {
		two.Cols = append(two.Cols, colSpec{Name: fmt.Sprintf("Other%d", i), Type: typ})
	}
	plain := len(c.Cols)
	if len(c.Other) == 0 {
		// a column computed from one with values compares like it
		one.Cols = slices.Clone(c.Cols)
		for i, col := range c.Cols {
			if col.Type != tUInt64 && len(one.Cols) == plain {
				one.Cols = append(one.Cols, colSpec{Name: fmt.Sprintf("Calc%d", i), Type: col.Type, Expr: col.Name})
				for k := range c.Rows {
					c.Rows[k] = append(slices.Clip(c.Rows[k]), c.Rows[k][i])
				}
			}
		}
		one.Rows = [][]cell{c.Rows[0], c.Rows[1]}
	}
	dt, err := one.build(ds)
	if err != nil {
		return err
	}
	left, right := dt.Row(0), dt.Row(1)
	if len(c.Other) > 0 {
		if dt, err = two.build(ds); err != nil {
			return err
		}
		right = dt.Row(0)
	} else {
		two.Cols = one.Cols
	}
	for i := -2; i < max(len(one.Cols), len(two.Cols))+2; i++ {
		r, err := data.CompareDataRowColumns(left, right, i, c.Exact)
		q, erq := data.CompareDataRowColumns(right, left, i, c.Exact)
		if i < 0 || i >= len(one.Cols) || i >= len(two.Cols) {
			if err == nil || erq == nil {
				return fmt.Errorf("comparing rows by column %d of %d and %d does not fail", i, len(one.Cols), len(two.Cols))
			}
			continue
		}
		if one.Cols[i].Type != two.Cols[i].Type {
			if err == nil || erq == nil {
				return fmt.Errorf("comparing a %s with a %s does not fail", typeNames[one.Cols[i].Type], typeNames[two.Cols[i].Type])
			}
			o.Label("other type")
			continue
		}
		typ, a, b := one.Cols[i].Type, c.Rows[0][i], c.Rows[1][i]
		want := compareCells(typ, a, b, c.Exact, strings.ToUpper)
		if want != compareCells(typ, a, b, c.Exact, strings.ToLower) {
			continue
		}
		if err != nil || erq != nil || r != want || q != -want {
			return fmt.Errorf("comparing %s %v with %v gives %d (error %v), the other way %d (error %v), expected %d", typeNames[typ], a, b, r, err, q, erq, want)
		}
		o.NonTrivial()
		if want == 0 && !a.Null {
			o.Label("equal values")
		}
		if i >= plain {
			o.Label("computed")
			rows, err := dt.Select("", one.Cols[i].Name, -1)
			if err != nil || len(rows) != 2 {
				return fmt.Errorf("selecting two rows by a computed column gives %d, error %v", len(rows), err)
			}
			if !c.Exact && (want < 0 && rows[0] != left || want > 0 && rows[0] != right) {
				return fmt.Errorf("rows with computed %s %v and %v sort in the wrong order", typeNames[typ], a, b)
			}
		}
	}
	return nil
}

func genC21Pair(t *rapid.T) (c c21Pair) {
	c.Exact = rapid.Bool().Draw(t, "exact")
	n := rapid.IntRange(1, 6).Draw(t, "columns")
	two := rapid.IntRange(0, 2).Draw(t, "two") == 0
	for i := 0; i < n; i++ {
		typ := rapid.IntRange(0, tUInt64).Draw(t, "type")
		c.Cols = append(c.Cols, colSpec{Name: fmt.Sprintf("Col%d", i), Type: typ})
		value := func(typ int) cell {
			v := genCell(t, typ, 4)
			if v.S == "NaN" || v.S == "-0" {
				v.S = "0"
			}
			return v
		}
		v := value(typ)
		w := v
		if rapid.IntRange(0, 3).Draw(t, "same") > 0 {
			w = value(typ)
		} else if typ == tString {
			w.S = flip(t, w.S)
		}
		if two && rapid.IntRange(0, 5).Draw(t, "missing") > 0 {
			if rapid.IntRange(0, 3).Draw(t, "othertype") == 0 {
				typ = rapid.IntRange(0, tUInt64).Draw(t, "type")
				w = value(typ)
			}
			c.Other = append(c.Other, typ)
		} else if two {
			two = false
			if len(c.Other) == 0 {
				c.Rows[0] = append(c.Rows[0], v)
				c.Rows[1] = append(c.Rows[1], w)
				for i++; i < n; i++ {
					c.Cols = append(c.Cols, colSpec{Name: fmt.Sprintf("Col%d", i), Type: tInt32})
					c.Rows[0] = append(c.Rows[0], cell{S: "1"})
					c.Rows[1] = append(c.Rows[1], cell{S: "2"})
				}
				return
			}
			c.Rows[0] = append(c.Rows[0], v)
			return
		}
		c.Rows[0] = append(c.Rows[0], v)
		c.Rows[1] = append(c.Rows[1], w)
	}
	return
}

// c21Setup is a parser that lacks what a query needs, until it is given that.
type c21Setup struct {
	Rows  int
	Keep  []int // the rows selected
	Named bool  // a filter statement rather than a condition
	IDs   bool  // signal IDs are wanted
	Both  bool  // and rows as well
	Lacks string
}

func execC21Setup(c c21Setup, o *vk.Obs) error {
	o.Label("%s", c.Lacks)
	ds := data.NewDataSet()
	spec := tableSpec{Name: "Signals", Cols: []colSpec{{Name: "N", Type: tInt32}, {Name: "Signal", Type: tGuid}}}
	for i := 0; i < c.Rows; i++ {
		spec.Rows = append(spec.Rows, []cell{{S: strconv.Itoa(i)}, {S: formatGUID(guidOf(uint32(i)))}})
	}
	dt, err := spec.build(ds)
	if err != nil {
		return err
	}
	text := "N IN (-1"
	for _, k := range c.Keep {
		text += "," + strconv.Itoa(k)
	}
	text += ")"
	if c.Named {
		text = "FILTER Signals WHERE " + text
	}
	p := data.NewFilterExpressionParser(text, true)
	give := func() {
		p.DataSet, p.PrimaryTableName = ds, "Signals"
		p.TableIDFields["Signals"] = &data.TableIDFields{SignalIDFieldName: "Signal", MeasurementKeyFieldName: "N", PointTagFieldName: "N"}
		p.TrackFilteredRows, p.TrackFilteredSignalIDs = !c.IDs || c.Both, c.IDs
	}
	give()
	refused := true
	switch c.Lacks {
	case "data set":
		p.DataSet = nil
	case "results":
		p.TrackFilteredRows, p.TrackFilteredSignalIDs = false, false
	case "table":
		p.DataSet = data.NewDataSet()
	case "primary":
		p.PrimaryTableName = ""
		refused = !c.Named
	case "fields":
		delete(p.TableIDFields, "Signals")
		refused = c.IDs
	case "field":
		p.TableIDFields["Signals"] = &data.TableIDFields{SignalIDFieldName: "Other", MeasurementKeyFieldName: "N", PointTagFieldName: "N"}
		refused = c.IDs
	}
	if err := p.Evaluate(true, true); (err != nil) != refused {
		return fmt.Errorf("%q without %s: error %v, expected one: %v", text, c.Lacks, err, refused)
	}
	give()
	if err := p.Evaluate(true, true); err != nil {
		return fmt.Errorf("%q with all it needs: %v", text, err)
	}
	var rows, ids []int
	for i := 0; i < c.Rows; i++ {
		if slices.Contains(c.Keep, i) {
			ids = append(ids, i)
			if p.TrackFilteredRows {
				rows = append(rows, i)
			}
		}
	}
	if len(p.FilteredRows()) != len(rows) || len(p.FilteredRowSet()) != len(rows) {
		return fmt.Errorf("%q selects %d rows, expected %d", text, len(p.FilteredRows()), len(rows))
	}
	for k, i := range rows {
		if p.FilteredRows()[k] != dt.Row(i) {
			return fmt.Errorf("%q selects another row than %d", text, i)
		}
	}
	if !c.IDs {
		ids = nil
	}
	if len(p.FilteredSignalIDs()) != len(ids) || len(p.FilteredSignalIDSet()) != len(ids) {
		return fmt.Errorf("%q selects %d signals, expected %d", text, len(p.FilteredSignalIDs()), len(ids))
	}
	for k, i := range ids {
		if p.FilteredSignalIDs()[k] != guid.Guid(guidOf(uint32(i))) {
			return fmt.Errorf("%q selects another signal than that of row %d", text, i)
		}
	}
	if len(ids)+len(rows) > 0 {
		o.NonTrivial()
	}
	return nil
}

func TestC21(t *testing.T) {
	vk.Run(t, vk.Spec[c21Setup]{
		ID: "C21", Name: "setup", Rule: "parsers that lack a data set, table, primary table, ID fields or wanted results, then given them; non-trivial: something selected then",
		Quick: 600, Deep: 10000, Exec: execC21Setup,
		Gen: func(t *rapid.T) c21Setup {
			return c21Setup{Rows: rapid.IntRange(0, 6).Draw(t, "rows"), Keep: rapid.SliceOfNDistinct(rapid.IntRange(0, 7), 0, 5, rapid.ID[int]).Draw(t, "keep"),
				Named: rapid.Bool().Draw(t, "named"), IDs: rapid.Bool().Draw(t, "ids"), Both: rapid.Bool().Draw(t, "both"),
				Lacks: rapid.SampledFrom([]string{"data set", "results", "table", "primary", "fields", "field"}).Draw(t, "lacks")}
		},
	})
	vk.Run(t, vk.Spec[c21Pair]{
		ID: "C21", Name: "compare", Rule: "two rows of one table or of two, compared by every column and by indexes that are none; non-trivial: some column compared",
		Quick: 6000, Deep: 150000, Exec: execC21Pair, Gen: genC21Pair,
	})
	vk.Run(t, vk.Spec[c21Case]{
		ID: "C21", Name: "queries", Rule: "up to 7 filter statements, conditions and identifiers over two tables of up to 25 rows, asked for as rows, row sets, signals and through Select; non-trivial: several rows selected by a query with a limit, a sort or several statements",
		Quick: 8000, Deep: 150000, Exec: execC21, Gen: genC21,
	})
	vk.Run(t, vk.Spec[c21Case]{
		ID: "C21", Name: "large", Rule: "as above with tables of up to 3000 rows and limits up to 5000; non-trivial: as above",
		Quick: 80, Deep: 2000, Exec: execC21, Gen: genC21Large,
	})
}
