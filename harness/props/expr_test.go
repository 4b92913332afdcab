package props

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
)

// Types of expression values, in the order of the library's enumeration.
const (
	xBool = iota
	xInt32
	xInt64
	xDec
	xDbl
	xStr
	xGuid
	xTime
)

var xtNames = []string{"Boolean", "Int32", "Int64", "Decimal", "Double", "String", "Guid", "DateTime"}

// xnode is a filter expression in tree form.
type xnode struct {
	K     string  // lit, null, col, un, bin, like, in, isnull, fn
	T     int     `json:",omitempty"` // type of a literal
	S     string  `json:",omitempty"` // literal text, column name, operator or function name
	Kids  []xnode `json:",omitempty"`
	Not   bool    `json:",omitempty"`
	Exact bool    `json:",omitempty"`
	Alt   int     `json:",omitempty"` // spelling
	Bare  bool    `json:",omitempty"` // no parentheses where they are redundant
}

// xv is a value of the reference evaluator.
type xv struct {
	T    int
	Null bool
	V    any // bool, int64, *big.Rat, float64, string, guid.Guid, time.Time
	// NoType marks a null whose type is not specified.
	NoType bool
	// Approx marks a number that rounding steps may change in the last digits.
	Approx bool
}

// xout is an outcome: a value, an error, or unspecified.
type xout struct {
	xv
	Err    bool
	Unspec bool
}

var (
	xerr    = xout{Err: true}
	xunspec = xout{Unspec: true}
)

func xval(t int, v any) xout  { return xout{xv: xv{T: t, V: v}} }
func xnull(t int) xout        { return xout{xv: xv{T: t, Null: true}} }
func xbool(b bool) xout       { return xval(xBool, b) }
func xint(v int64) xout       { return xval(xInt32, v) }
func xnullAny(t int) xout     { return xout{xv: xv{T: t, Null: true, NoType: true}} }
func (o xout) bad() bool      { return o.Err || o.Unspec }
func (v xv) isNum() bool      { return v.T <= xDbl }
func (v xv) isInt() bool      { return v.T <= xInt64 }
func fitsInt32(v int64) bool  { return v == int64(int32(v)) }
func ratInt(v int64) *big.Rat { return new(big.Rat).SetInt64(v) }
func ratOf(s string) *big.Rat { r, _ := new(big.Rat).SetString(s); return r }
func (v xv) truth() bool      { return !v.Null && v.T == xBool && v.V.(bool) }
func boolInt(b bool) (n int64) {
	if b {
		n = 1
	}
	return
}

const xTimeFormat = "2006-01-02T15:04:05.99-07:00"

// ratText is the shortest exact decimal text of a number that has one.
func ratText(r *big.Rat) string {
	if r.IsInt() {
		return r.Num().String()
	}
	s := r.FloatString(400)
	return strings.TrimRight(s, "0")
}

func ratTrunc(r *big.Rat) *big.Int { return new(big.Int).Quo(r.Num(), r.Denom()) }

// ratRound rounds half away from zero to the given number of decimals.
func ratRound(r *big.Rat, places int) *big.Rat {
	scale := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(places)), nil)
	x := new(big.Rat).Mul(r, new(big.Rat).SetInt(scale))
	half := big.NewRat(1, 2)
	if x.Sign() < 0 {
		half.Neg(half)
	}
	n := ratTrunc(x.Add(x, half))
	return new(big.Rat).SetFrac(n, scale)
}

func ratFloor(r *big.Rat) *big.Rat {
	n := ratTrunc(r)
	if r.Sign() < 0 && !r.IsInt() {
		n.Sub(n, big.NewInt(1))
	}
	return new(big.Rat).SetInt(n)
}

func ratFloat(r *big.Rat) float64 { f, _ := r.Float64(); return f }

var (
	plainNumber = regexp.MustCompile(`^[+-]?\d{1,18}(\.\d{1,18})?$`)
	plainInt    = regexp.MustCompile(`^[+-]?(0|[1-9]\d{0,17})$`)
	dateForms   = []string{"2006-01-02 15:04:05.000", "2006-01-02 15:04:05", "2006-01-02", "2006-01-02T15:04:05Z"}
)

func parseDateText(s string) (time.Time, bool) {
	for _, f := range dateForms {
		if v, err := time.Parse(f, s); err == nil && v.Format(f) == s && v.Year() >= 1900 && v.Year() <= 2100 {
			return v.UTC(), true
		}
	}
	return time.Time{}, false
}

// xconv converts a value to a type.
func xconv(v xv, t int) xout {
	if v.Null {
		return xnull(t)
	}
	if v.T == t {
		return xout{xv: v}
	}
	number := func(r *big.Rat, f float64) xout {
		switch t {
		case xBool:
			return xbool(r.Sign() != 0)
		case xInt32, xInt64:
			n := ratTrunc(r)
			if !n.IsInt64() || t == xInt32 && !fitsInt32(n.Int64()) {
				return xunspec
			}
			return xval(t, n.Int64())
		case xDec:
			return xval(xDec, r)
		case xDbl:
			return xval(xDbl, f)
		}
		return xerr
	}
	switch v.T {
	case xBool:
		if t == xStr {
			return xval(xStr, strconv.FormatBool(v.V.(bool)))
		}
		n := boolInt(v.V.(bool))
		return number(ratInt(n), float64(n))
	case xInt32, xInt64:
		n := v.V.(int64)
		if t == xStr {
			return xval(xStr, strconv.FormatInt(n, 10))
		}
		return number(ratInt(n), float64(n))
	case xDec:
		r := v.V.(*big.Rat)
		if t == xStr {
			return xval(xStr, ratText(r))
		}
		return number(r, ratFloat(r))
	case xDbl:
		f := v.V.(float64)
		if t == xStr {
			return xval(xStr, strconv.FormatFloat(f, 'f', 6, 64))
		}
		if math.IsNaN(f) || math.IsInf(f, 0) {
			switch t {
			case xBool:
				return xbool(true)
			case xDec, xGuid, xTime:
				return xerr
			}
			return xunspec
		}
		if math.Abs(f) > 1e30 || f != 0 && math.Abs(f) < 1e-30 {
			if t == xBool {
				return xbool(true)
			}
			if t != xGuid && t != xTime {
				return xunspec
			}
		}
		return number(ratOf(strconv.FormatFloat(f, 'f', -1, 64)), f)
	case xStr:
		s := v.V.(string)
		switch t {
		case xBool:
			switch s {
			case "true", "TRUE", "True", "1", "t", "T":
				return xbool(true)
			case "false", "FALSE", "False", "0", "f", "F":
				return xbool(false)
			}
		case xInt32, xInt64, xDec:
			if plainNumber.MatchString(s) {
				r := ratOf(s)
				return number(r, 0)
			}
		case xDbl:
			if plainNumber.MatchString(s) {
				f, _ := strconv.ParseFloat(s, 64)
				return xval(xDbl, f)
			}
		case xGuid:
			if strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}") {
				s = s[1 : len(s)-1]
			}
			if g, err := parseGUID(s); err == nil && strings.EqualFold(formatGUID(g), s) {
				return xval(xGuid, g)
			}
		case xTime:
			if d, ok := parseDateText(s); ok {
				return xval(xTime, d)
			}
		}
		return xunspec
	case xGuid:
		if t == xStr {
			return xval(xStr, "{"+formatGUID(v.V.(guid.Guid))+"}")
		}
		return xerr
	case xTime:
		d := v.V.(time.Time)
		switch t {
		case xStr:
			return xval(xStr, d.Format(xTimeFormat))
		case xGuid:
			return xerr
		}
		return number(ratInt(d.Unix()), float64(d.Unix()))
	}
	return xerr
}

func deriveArith(op string, l, r int) (int, bool) {
	switch {
	case l <= xDbl && r <= xDbl:
		return max(l, r), true
	case op == "+" && (l == xStr || l <= xDbl && r == xStr):
		return xStr, true
	}
	return 0, false
}

func deriveInt(l, r int) (int, bool) { return max(l, r), l <= xInt64 && r <= xInt64 }

func deriveCompare(l, r int) (int, bool) {
	switch {
	case l == xStr:
		return xStr, true
	case l <= xDbl && r <= xDbl:
		return max(l, r), true
	case r == xStr && l == xBool:
		return xBool, true
	case r == xStr && l == xDbl:
		return xDbl, true
	case r == xStr && l <= xDec:
		return xDec, true
	case l == r || r == xStr:
		return l, true
	}
	return 0, false
}

// xcmp compares two values of the same type; ordered is false for NaN.
func xcmp(a, b xv, exact, equality bool) (c int, ordered bool) {
	switch a.T {
	case xBool:
		return int(boolInt(a.V.(bool)) - boolInt(b.V.(bool))), true
	case xInt32, xInt64:
		x, y := a.V.(int64), b.V.(int64)
		switch {
		case x < y:
			return -1, true
		case x > y:
			return 1, true
		}
		return 0, true
	case xDec:
		return a.V.(*big.Rat).Cmp(b.V.(*big.Rat)), true
	case xDbl:
		x, y := a.V.(float64), b.V.(float64)
		switch {
		case x < y:
			return -1, true
		case x > y:
			return 1, true
		}
		return 0, x == y
	case xStr:
		x, y := a.V.(string), b.V.(string)
		if exact {
			return strings.Compare(x, y), true
		}
		return strings.Compare(strings.ToUpper(x), strings.ToUpper(y)), true
	case xGuid:
		x, y := a.V.(guid.Guid), b.V.(guid.Guid)
		return strings.Compare(string(x[:]), string(y[:])), true
	case xTime:
		return a.V.(time.Time).Compare(b.V.(time.Time)), true
	}
	return 0, false
}

// xcompare evaluates a comparison operator.
func xcompare(op string, l, r xv) xout {
	t, ok := deriveCompare(l.T, r.T)
	if !ok {
		return xerr
	}
	if l.Null || r.Null {
		return xnull(xBool)
	}
	a, b := xconv(l, t), xconv(r, t)
	if a.Err || b.Err {
		return xerr
	}
	if a.Unspec || b.Unspec {
		return xunspec
	}
	c, ordered := xcmp(a.xv, b.xv, op == "===" || op == "!==", true)
	switch op {
	case "<":
		return xbool(ordered && c < 0)
	case "<=":
		return xbool(ordered && c <= 0)
	case ">":
		return xbool(ordered && c > 0)
	case ">=":
		return xbool(ordered && c >= 0)
	case "=", "===":
		return xbool(ordered && c == 0)
	}
	return xbool(!ordered || c != 0)
}

func wrapInt(t int, v int64) xout {
	if t == xInt32 {
		v = int64(int32(v))
	}
	return xval(t, v)
}

// xarith evaluates + - * / % & | ^.
func xarith(op string, l, r xv) xout {
	var t int
	var ok bool
	if strings.Contains("%&|^", op) {
		t, ok = deriveInt(l.T, r.T)
	} else {
		t, ok = deriveArith(op, l.T, r.T)
	}
	if !ok {
		return xerr
	}
	if l.Null || r.Null {
		return xnull(t)
	}
	a, b := xconv(l, t), xconv(r, t)
	if a.Err || b.Err {
		return xerr
	}
	if a.Unspec || b.Unspec {
		return xunspec
	}
	switch t {
	case xBool:
		x, y := a.V.(bool), b.V.(bool)
		switch op {
		case "+", "|":
			return xbool(x || y)
		case "-", "^":
			return xbool(x != y)
		case "&":
			return xbool(x && y)
		}
		return xerr
	case xInt32, xInt64:
		x, y := a.V.(int64), b.V.(int64)
		switch op {
		case "+":
			return wrapInt(t, x+y)
		case "-":
			return wrapInt(t, x-y)
		case "*":
			return wrapInt(t, x*y)
		case "&":
			return xval(t, x&y)
		case "|":
			return xval(t, x|y)
		case "^":
			return xval(t, x^y)
		}
		if y == 0 {
			return xerr
		}
		if y == -1 { // quotient may overflow
			if op == "/" {
				return wrapInt(t, -x)
			}
			return xval(t, int64(0))
		}
		q, m := new(big.Int).QuoRem(big.NewInt(x), big.NewInt(y), new(big.Int))
		if op == "/" {
			return xval(t, q.Int64())
		}
		return xval(t, m.Int64())
	case xDec:
		x, y := a.V.(*big.Rat), b.V.(*big.Rat)
		z := new(big.Rat)
		switch op {
		case "+":
			return xval(t, z.Add(x, y))
		case "-":
			return xval(t, z.Sub(x, y))
		case "*":
			return xval(t, z.Mul(x, y))
		}
		if y.Sign() == 0 {
			return xerr
		}
		return xval(t, ratRound(z.Quo(x, y), 16))
	case xDbl:
		x, y := a.V.(float64), b.V.(float64)
		switch op {
		case "+":
			return xval(t, x+y)
		case "-":
			return xval(t, x-y)
		case "*":
			return xval(t, x*y)
		}
		return xval(t, x/y)
	case xStr:
		return xval(t, a.V.(string)+b.V.(string))
	}
	return xerr
}

func xshift(op string, l, r xv) xout {
	if l.Null {
		return xnull(l.T)
	}
	if !r.isInt() || r.Null || !l.isInt() {
		return xerr
	}
	n := xconv(r, xInt64).V.(int64)
	size := int64(64)
	if l.T == xInt32 {
		size = 32
	}
	if n <= -size || n >= size {
		return xunspec
	}
	if n < 0 {
		n += size
	}
	if l.T == xBool {
		if op == "<<" {
			return xbool(l.V.(bool))
		}
		return xbool(l.V.(bool) && n == 0)
	}
	v := l.V.(int64)
	if op == "<<" {
		z := new(big.Int).Lsh(big.NewInt(v), uint(n))
		z.And(z, new(big.Int).SetUint64(math.MaxUint64))
		return wrapInt(l.T, int64(z.Uint64()))
	}
	return xval(l.T, new(big.Int).Rsh(big.NewInt(v), uint(n)).Int64())
}

func xlike(l, r xv, exact, not bool) xout {
	if l.Null {
		if l.T != xStr || r.T != xStr || r.Null {
			return xunspec
		}
		return xnull(xBool)
	}
	if l.T != xStr || r.T != xStr || r.Null {
		return xerr
	}
	s, p := l.V.(string), strings.ReplaceAll(r.V.(string), "%", "*")
	if !exact {
		s, p = strings.ToUpper(s), strings.ToUpper(p)
	}
	start, end := strings.HasPrefix(p, "*"), strings.HasSuffix(p, "*")
	p = strings.TrimPrefix(p, "*")
	if end {
		p = strings.TrimSuffix(p, "*")
	}
	if strings.Contains(p, "*") {
		return xerr
	}
	var m bool
	switch {
	case start && end:
		m = strings.Contains(s, p)
	case start:
		m = strings.HasSuffix(s, p)
	case end:
		m = strings.HasPrefix(s, p)
	default:
		m = s == p
	}
	return xbool(m != not)
}

// xenv evaluates expressions for one row.
type xenv struct {
	cols map[string]xout
	// what was reached, for classification
	nulls, errs int
	seen        map[string]bool
}

func (e *xenv) note(s string) {
	if e.seen == nil {
		e.seen = map[string]bool{}
	}
	e.seen[s] = true
}

// eval evaluates an operand with a NULL literal taken as the given type; a negative type leaves it open.
func (e *xenv) eval(n xnode, as int) xout {
	o := e.eval1(n, as)
	if o.Approx {
		return xunspec
	}
	if o.Err {
		e.errs++
	} else if !o.Unspec && o.Null {
		e.nulls++
	}
	return o
}

func (e *xenv) eval1(n xnode, as int) xout {
	switch n.K {
	case "null":
		if as < 0 {
			return xnullAny(xBool)
		}
		return xnull(as)
	case "lit":
		return litValue(n)
	case "col":
		return e.cols[strings.ToUpper(n.S)]
	case "un":
		v := e.eval(n.Kids[0], -1)
		if v.bad() || v.Null {
			return v
		}
		switch {
		case v.T == xBool && n.S == "not":
			return xbool(!v.V.(bool))
		case v.isInt() && v.T != xBool:
			x := v.V.(int64)
			switch n.S {
			case "-":
				x = -x
			case "not":
				x = -x - 1
			}
			return wrapInt(v.T, x)
		case v.T == xDec && n.S != "not":
			if n.S == "-" {
				return xval(xDec, new(big.Rat).Neg(v.V.(*big.Rat)))
			}
			return v
		case v.T == xDbl && n.S != "not":
			if n.S == "-" {
				return xval(xDbl, -v.V.(float64))
			}
			return v
		}
		return xerr
	case "isnull":
		v := e.eval(n.Kids[0], xBool)
		if v.bad() {
			return v
		}
		return xbool(v.Null != n.Not)
	case "like", "bin":
		l := e.eval(n.Kids[0], xBool)
		if l.bad() {
			return l
		}
		r := e.eval(n.Kids[1], l.T)
		if r.bad() {
			if r.Err && (n.S == "and" || n.S == "or") {
				return xunspec // evaluation may stop at a deciding left operand
			}
			return r
		}
		if l.NoType || r.NoType {
			return xunspec
		}
		if n.Kids[0].K == "null" {
			l = xnull(r.T)
		}
		e.note(fmt.Sprintf("%s %s %s", xtNames[l.T], n.S, xtNames[r.T]))
		if n.K == "like" {
			return xlike(l.xv, r.xv, n.Exact, n.Not)
		}
		switch n.S {
		case "and", "or":
			if l.T != xBool || r.T != xBool {
				return xerr
			}
			if l.Null || r.Null {
				return xnull(xBool)
			}
			if n.S == "and" {
				return xbool(l.V.(bool) && r.V.(bool))
			}
			return xbool(l.V.(bool) || r.V.(bool))
		case "<<", ">>":
			return xshift(n.S, l.xv, r.xv)
		case "<", "<=", ">", ">=", "=", "<>", "===", "!==":
			return xcompare(n.S, l.xv, r.xv)
		}
		return xarith(n.S, l.xv, r.xv)
	case "in":
		v := e.eval(n.Kids[0], xBool)
		if v.bad() {
			return v
		}
		if v.Null {
			return xnull(xBool)
		}
		op := "="
		if n.Exact {
			op = "==="
		}
		match, bad, null := false, false, false
		for _, k := range n.Kids[1:] {
			a := e.eval(k, v.T)
			if a.Unspec || a.NoType {
				return xunspec
			}
			if a.Err {
				bad = true
				break
			}
			c := xcompare(op, v.xv, a.xv)
			if c.Unspec {
				return xunspec
			}
			if c.Err {
				bad = true
				break
			}
			if c.Null {
				null = true
			} else if c.V.(bool) {
				match = true
			}
		}
		switch {
		case bad && match:
			return xunspec
		case bad:
			return xerr
		case null && !match:
			return xunspec
		}
		return xbool(match != n.Not)
	case "fn":
		e.note(n.S)
		return e.call(n)
	}
	panic("unknown node " + n.K)
}

func litValue(n xnode) xout {
	switch n.T {
	case xBool:
		return xbool(n.S == "true")
	case xInt32, xInt64:
		v, _ := strconv.ParseInt(n.S, 10, 64)
		return xval(n.T, v)
	case xDec:
		return xval(xDec, ratOf(n.S))
	case xDbl:
		f, _ := strconv.ParseFloat(n.S, 64)
		return xval(xDbl, f)
	case xStr:
		return xval(xStr, n.S)
	case xGuid:
		g, _ := parseGUID(n.S)
		return xval(xGuid, g)
	}
	d, _ := time.Parse(time.RFC3339Nano, n.S)
	return xval(xTime, d)
}

// colValue is the value of a cell as an operand.
func colValue(typ int, c cell) xout {
	t := xStr
	switch typ {
	case tBool:
		t = xBool
	case tDateTime:
		t = xTime
	case tSingle, tDouble:
		t = xDbl
	case tDecimal:
		t = xDec
	case tGuid:
		t = xGuid
	case tInt8, tInt16, tInt32, tUInt8, tUInt16:
		t = xInt32
	case tInt64, tUInt32, tUInt64:
		t = xInt64
	}
	if c.Null {
		return xnull(t)
	}
	v, _ := goValue(typ, c.text())
	return goXValue(t, v)
}

// goXValue is the expression value of a field value.
func goXValue(t int, v any) xout {
	switch v := v.(type) {
	case float32:
		return xval(t, float64(v))
	case decimal.Decimal:
		return xval(t, v.Rat())
	case int8:
		return xval(t, int64(v))
	case int16:
		return xval(t, int64(v))
	case int32:
		return xval(t, int64(v))
	case uint8:
		return xval(t, int64(v))
	case uint16:
		return xval(t, int64(v))
	case uint32:
		return xval(t, int64(v))
	case uint64:
		if v > math.MaxInt64 {
			return xval(xDbl, float64(v))
		}
		return xval(t, int64(v))
	default:
		return xval(t, v)
	}
}

// xprec orders node kinds from loose to tight as far as grammar and documentation agree.
func xclass(n xnode) int {
	switch n.K {
	case "bin":
		switch n.S {
		case "and", "or":
			return 1
		case "<", "<=", ">", ">=", "=", "<>", "===", "!==":
			return 2
		case "<<", ">>", "&", "|", "^":
			return 3
		case "+", "-", "*", "/", "%":
			return 4
		}
	case "like", "in", "isnull":
		return 2
	case "un":
		return 5
	}
	return 6
}

func pick(alts []string, i int) string { return alts[i%len(alts)] }

// operand prints a child, in parentheses unless they are redundant.
func (n xnode) operand(parent xnode, left bool) string {
	s := n.text()
	c, p := xclass(n), xclass(parent)
	switch {
	case p == 5 && n.K == "lit" && n.T == xTime:
		// a sign next to a date reads as a measurement key
	case c == 6:
		return s
	case c == 5 && p >= 2 && p <= 4 && left && n.S != "not" && n.Bare:
		return s // a sign binds tighter than any binary operator
	case p == 5 || parent.K == "like" || parent.K == "in" || parent.K == "isnull" || c == 5:
	case n.Bare && p == 1 && c >= 2 && c <= 4:
		return s
	case n.Bare && p == 2 && c >= 3 && c <= 4:
		return s
	case n.Bare && p == 3 && c == 4:
		return s
	case n.Bare && left && c == p && (c == 1 || c == 3) && n.S == parent.S:
		return s // a chain of one operator, evaluated from the left
	case n.Bare && left && c == 4 && p == 4 && strings.Contains("+-", n.S) == strings.Contains("+-", parent.S):
		return s // operators of the same precedence
	}
	return "(" + s + ")"
}

var xkeyword = []func(string) string{strings.ToUpper, strings.ToLower, func(s string) string { return s[:1] + strings.ToLower(s[1:]) }}

// text prints the expression.
func (n xnode) text() string {
	if n.Alt >= 24 {
		return "(" + n.inner() + ")"
	}
	return n.inner()
}

func (n xnode) inner() string {
	kw := xkeyword[n.Alt/8%3]
	switch n.K {
	case "null":
		return kw("NULL")
	case "col":
		return pick([]string{n.S, "[" + n.S + "]", "`" + n.S + "`", strings.ToUpper(n.S), strings.ToLower(n.S)}, n.Alt)
	case "lit":
		return n.literal(kw)
	case "un":
		k := n.Kids[0].operand(n, false)
		switch n.S {
		case "not":
			if n.Alt%3 == 0 {
				return kw("NOT") + " " + k
			}
			return pick([]string{"~", "!"}, n.Alt) + k
		}
		return n.S + k
	case "isnull":
		s := n.Kids[0].operand(n, true) + " " + kw("IS") + " "
		if n.Not {
			s += kw("NOT") + " "
		}
		return s + kw("NULL")
	case "like", "in":
		s := n.Kids[0].operand(n, true) + " "
		if n.Not {
			s += pick([]string{kw("NOT") + " ", "!"}, n.Alt)
		}
		if n.K == "like" {
			s += kw("LIKE") + " "
		} else {
			s += kw("IN") + " "
		}
		if n.Exact {
			s += pick([]string{kw("BINARY") + " ", "=== "}, n.Alt)
		}
		if n.K == "like" {
			return s + n.Kids[1].operand(n, false)
		}
		return s + "(" + xlist(n.Kids[1:]) + ")"
	case "bin":
		op := n.S
		switch n.S {
		case "and":
			op = pick([]string{kw("AND"), "&&"}, n.Alt)
		case "or":
			op = pick([]string{kw("OR"), "||"}, n.Alt)
		case "=":
			op = pick([]string{"=", "=="}, n.Alt)
		case "<>":
			op = pick([]string{"<>", "!="}, n.Alt)
		case "^":
			op = pick([]string{"^", kw("XOR")}, n.Alt)
		}
		return n.Kids[0].operand(n, true) + " " + op + " " + n.Kids[1].operand(n, false)
	case "fn":
		return pick([]string{n.S, strings.ToUpper(n.S), strings.ToLower(n.S)}, n.Alt) + "(" + xlist(n.Kids) + ")"
	}
	panic("unknown node " + n.K)
}

func xlist(kids []xnode) string {
	var parts []string
	for _, k := range kids {
		parts = append(parts, k.text())
	}
	return strings.Join(parts, ", ")
}

func (n xnode) literal(kw func(string) string) string {
	switch n.T {
	case xBool:
		return kw(strings.ToUpper(n.S))
	case xInt32, xInt64:
		v, _ := strconv.ParseInt(n.S, 10, 64)
		return pick([]string{n.S, n.S, fmt.Sprintf("0x%X", v), "00" + n.S}, n.Alt)
	case xStr:
		return "'" + strings.ReplaceAll(n.S, "'", "''") + "'"
	case xGuid:
		return pick([]string{n.S, "{" + n.S + "}", "'" + n.S + "'", strings.ToUpper(n.S)}, n.Alt)
	case xTime:
		d, _ := time.Parse(time.RFC3339Nano, n.S)
		s := d.Format("2006-01-02 15:04:05.000")
		if d.Nanosecond() == 0 {
			s = d.Format(pick([]string{"2006-01-02 15:04:05", "2006-01-02T15:04:05Z"}, n.Alt))
			if n.Alt%3 == 0 && d.Truncate(24*time.Hour).Equal(d) {
				s = d.Format("2006-01-02")
			}
		}
		return "#" + s + "#"
	}
	return n.S
}

func (n xnode) depth() int {
	d := 0
	for _, k := range n.Kids {
		d = max(d, k.depth())
	}
	return d + 1
}

func (n xnode) size() int {
	s := 1
	for _, k := range n.Kids {
		s += k.size()
	}
	return s
}

// fromLib converts a library value.
func fromLib(v *data.ValueExpression) (xv, error) {
	if v == nil {
		return xv{}, fmt.Errorf("no value and no error")
	}
	t := int(v.ValueType())
	if v.IsNull() {
		return xv{T: t, Null: true}, nil
	}
	var x any
	var err error
	switch t {
	case xBool:
		x, err = v.BooleanValue()
	case xInt32:
		var n int32
		n, err = v.Int32Value()
		x = int64(n)
	case xInt64:
		x, err = v.Int64Value()
	case xDec:
		var d decimal.Decimal
		d, err = v.DecimalValue()
		x = d.Rat()
	case xDbl:
		x, err = v.DoubleValue()
	case xStr:
		x, err = v.StringValue()
	case xGuid:
		x, err = v.GuidValue()
	case xTime:
		x, err = v.DateTimeValue()
	default:
		return xv{}, fmt.Errorf("value has type %v", v.ValueType())
	}
	return xv{T: t, V: x}, err
}

func (v xv) String() string {
	if v.Null {
		return "null " + xtNames[v.T]
	}
	if r, ok := v.V.(*big.Rat); ok {
		return "Decimal " + ratText(r)
	}
	return fmt.Sprintf("%s %#v", xtNames[v.T], v.V)
}

// match compares an outcome of the library with the expected one.
func (o xout) match(got *data.ValueExpression, err error) error {
	switch {
	case o.Unspec:
		return nil
	case o.Err && err == nil:
		g, _ := fromLib(got)
		return fmt.Errorf("gives %v, expected an error", g)
	case o.Err:
		return nil
	case err != nil:
		return fmt.Errorf("fails with %v, expected %v", err, o.xv)
	}
	g, err := fromLib(got)
	if err != nil {
		return err
	}
	if o.Null {
		if !g.Null || !o.NoType && g.T != o.T {
			return fmt.Errorf("gives %v, expected %v", g, o.xv)
		}
		return nil
	}
	if g.Null || g.T != o.T || !sameX(g, o.xv) {
		return fmt.Errorf("gives %v, expected %v", g, o.xv)
	}
	return nil
}

func sameX(a, b xv) bool {
	if b.Approx && a.T == xDec {
		x, y := ratFloat(a.V.(*big.Rat)), ratFloat(b.V.(*big.Rat))
		return math.Abs(x-y) <= 1e-10*math.Max(1, math.Abs(y))
	}
	if a.T == xDbl {
		x, y := a.V.(float64), b.V.(float64)
		return x == y || x != x && y != y || math.Abs(x-y) <= 1e-12*math.Abs(y)
	}
	c, ok := xcmp(a, b, true, true)
	return ok && c == 0
}
