package props

import (
	"math"
	"math/big"
	"regexp"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"
)

// xarity gives the accepted numbers of arguments of each function.
var xarity = map[string][2]int{
	"Abs": {1, 1}, "Ceiling": {1, 1}, "Coalesce": {2, 99}, "Convert": {2, 2}, "Contains": {2, 3}, "DateAdd": {3, 3},
	"DateDiff": {3, 3}, "DatePart": {2, 2}, "EndsWith": {2, 3}, "Floor": {1, 1}, "IIf": {3, 3}, "IndexOf": {2, 3},
	"IsDate": {1, 1}, "IsInteger": {1, 1}, "IsGuid": {1, 1}, "IsNull": {2, 2}, "IsNumeric": {1, 1}, "LastIndexOf": {2, 3},
	"Len": {1, 1}, "Lower": {1, 1}, "MaxOf": {2, 99}, "MinOf": {2, 99}, "NthIndexOf": {3, 4}, "Power": {2, 2},
	"RegExMatch": {2, 2}, "RegExVal": {2, 2}, "Replace": {3, 4}, "Reverse": {1, 1}, "Round": {1, 1}, "Split": {3, 4},
	"Sqrt": {1, 1}, "StartsWith": {2, 3}, "StrCount": {2, 3}, "StrCmp": {2, 3}, "SubStr": {2, 3}, "Trim": {1, 1},
	"TrimLeft": {1, 1}, "TrimRight": {1, 1}, "Upper": {1, 1}, "Now": {0, 0}, "UtcNow": {0, 0},
}

var (
	xmath   = []string{"Abs", "Ceiling", "Floor", "Round", "Sqrt"}
	xtext1  = []string{"Len", "Lower", "Upper", "Trim", "TrimLeft", "TrimRight", "Reverse"}
	xfind   = []string{"Contains", "StartsWith", "EndsWith", "IndexOf", "LastIndexOf", "StrCount", "StrCmp"}
	xis     = []string{"IsDate", "IsInteger", "IsGuid", "IsNumeric"}
	xpieces = []string{"NthIndexOf", "Split"}
)

func isOneOf(s string, list []string) bool {
	for _, v := range list {
		if s == v {
			return true
		}
	}
	return false
}

var intervalNames = []string{"Year", "Month", "DayOfYear", "Day", "Week", "WeekDay", "Hour", "Minute", "Second", "Millisecond"}

func parseInterval(s string) string {
	s = strings.TrimSpace(s)
	for _, n := range intervalNames {
		if strings.EqualFold(n, s) {
			return n
		}
	}
	return ""
}

// convertTarget resolves the type name given to Convert, or returns -1.
func convertTarget(s string) int {
	s = strings.ToUpper(s)
	if len(s) > 7 {
		s = strings.TrimPrefix(s, "SYSTEM.")
	}
	for t, n := range xtNames {
		if s == strings.ToUpper(n) {
			return t
		}
	}
	switch {
	case s == "SINGLE" || strings.HasPrefix(s, "FLOAT"):
		return xDbl
	case s == "BOOL":
		return xBool
	case strings.HasPrefix(s, "INT") || strings.HasPrefix(s, "UINT"):
		return xInt64
	case s == "DATE" || s == "TIME":
		return xTime
	case s == "UUID":
		return xGuid
	}
	return -1
}

// call evaluates a function.
func (e *xenv) call(n xnode) xout {
	args := n.Kids
	if a := xarity[n.S]; len(args) < a[0] || len(args) > a[1] {
		return xerr
	}
	switch n.S {
	case "Now", "UtcNow":
		return xunspec
	case "IIf":
		c := e.eval(args[0], xBool)
		if c.bad() {
			return c
		}
		if c.NoType {
			return xunspec
		}
		if c.T != xBool {
			return xerr
		}
		if c.truth() {
			return e.eval(args[1], -1)
		}
		return e.eval(args[2], -1)
	case "Coalesce":
		first := e.eval(args[0], -1)
		for i := range args {
			v := first
			if i > 0 {
				v = e.eval(args[i], -1)
			}
			if v.bad() || !v.Null {
				return v
			}
		}
		return first
	case "IsNull":
		v, d := e.eval(args[0], -1), e.eval(args[1], -1)
		switch {
		case v.bad() || d.bad():
			return orBad(v, d)
		case d.Null:
			return xerr
		case v.Null:
			return d
		}
		return v
	case "MaxOf", "MinOf":
		return e.extreme(n)
	}

	as := []int{xStr, xStr, xBool, xBool}
	switch {
	case isOneOf(n.S, xmath):
		as[0] = xDbl
	case n.S == "Power":
		as[0], as[1] = xDbl, xInt32
	case n.S == "Convert":
		as[0] = xBool
	case isOneOf(n.S, xis):
		as[0] = xBool
	case n.S == "DateAdd":
		as = []int{xTime, xInt32, xStr}
	case n.S == "DateDiff":
		as = []int{xTime, xTime, xStr}
	case n.S == "DatePart":
		as[0] = xTime
	case n.S == "SubStr":
		as = []int{xStr, xInt32, xInt32}
	case isOneOf(n.S, xpieces):
		as[2] = xInt32
	case n.S == "Replace":
		as[2] = xStr
	}
	var v []xv
	unspec := false
	for i, a := range args {
		o := e.eval(a, as[i])
		if o.Err {
			return xerr
		}
		unspec = unspec || o.Unspec || o.NoType
		v = append(v, o.xv)
	}
	if unspec {
		return xunspec
	}
	return xcall(n.S, v)
}

func orBad(outs ...xout) xout {
	for _, o := range outs {
		if o.Err {
			return xerr
		}
	}
	for _, o := range outs {
		if o.Unspec {
			return xunspec
		}
	}
	return xunspec
}

func (e *xenv) extreme(n xnode) xout {
	op := ">"
	if n.S == "MinOf" {
		op = "<"
	}
	best := xout{}
	for i, k := range n.Kids {
		v := e.eval(k, -1)
		if v.bad() {
			return v
		}
		if v.NoType {
			return xunspec
		}
		if i == 0 {
			best = v
			continue
		}
		t, ok := deriveCompare(best.T, v.T)
		if !ok {
			return xerr
		}
		if best.Null {
			if !v.Null {
				best = v
			}
			continue
		}
		if v.Null {
			continue
		}
		a, b := xconv(v.xv, t), xconv(best.xv, t)
		if a.bad() || b.bad() {
			return orBad(a, b)
		}
		if xcompare(op, a.xv, b.xv).truth() {
			best = v
		}
	}
	return best
}

// xcall evaluates a function that evaluates all its arguments.
func xcall(name string, v []xv) xout {
	a := v[0]
	isText := func(i int) bool { return v[i].T == xStr }
	switch {
	case isOneOf(name, xmath):
		return xmath1(name, a)
	case isOneOf(name, xis):
		return xisKind(name, a)
	case name == "Power":
		return xpower(a, v[1])
	case name == "Convert":
		if !isText(1) || v[1].Null {
			return xerr
		}
		t := convertTarget(v[1].V.(string))
		if t < 0 {
			return xerr
		}
		return xconv(a, t)
	case strings.HasPrefix(name, "Date"):
		return xdate(name, v)
	case name == "SubStr":
		return xsubstr(v)
	case isOneOf(name, xtext1):
		if a.T != xStr {
			return xerr
		}
		if a.Null {
			if name == "Len" {
				return xnull(xInt32)
			}
			return xnull(xStr)
		}
		return xtextFn(name, a.V.(string))
	case name == "RegExMatch" || name == "RegExVal":
		if !isText(0) || !isText(1) {
			return xerr
		}
		if a.Null || v[1].Null {
			if name == "RegExVal" {
				return xnull(xStr)
			}
			return xnull(xBool)
		}
		re, err := regexp.Compile(a.V.(string))
		if err != nil {
			return xerr
		}
		m := re.FindStringIndex(v[1].V.(string))
		if name == "RegExMatch" {
			return xbool(m != nil)
		}
		if m == nil {
			return xval(xStr, "")
		}
		return xval(xStr, v[1].V.(string)[m[0]:m[1]])
	}

	// what remains searches a text, with an optional flag to ignore case
	pos := 2
	switch name {
	case "NthIndexOf", "Split":
		pos = 3
		if !v[2].isInt() {
			return xerr
		}
	case "Replace":
		pos = 3
		if !isText(2) {
			return xerr
		}
	}
	if !isText(0) || !isText(1) {
		return xerr
	}
	fold, foldBad := false, false
	if len(v) > pos {
		c := xconv(v[pos], xBool)
		if c.Unspec {
			return xunspec
		}
		foldBad = c.Err
		fold = !foldBad && c.truth()
	}
	b := v[1]
	early := func(o xout) xout {
		if foldBad {
			return xunspec // depends on which argument is looked at first
		}
		return o
	}
	switch name {
	case "Contains", "StartsWith", "EndsWith":
		if a.Null {
			return early(xnull(xBool))
		}
		if b.Null {
			return early(xbool(false))
		}
	case "StrCount":
		if a.Null || b.Null || b.V == "" {
			return early(xint(0))
		}
	case "StrCmp":
		if a.Null && b.Null {
			return early(xint(0))
		}
		if a.Null || b.Null {
			return xunspec
		}
	default:
		if b.Null || len(v) > 2 && pos == 3 && v[2].Null {
			return xerr
		}
		if a.Null {
			if name == "Split" || name == "Replace" {
				return early(xnull(xStr))
			}
			return early(xnull(xInt32))
		}
	}
	if foldBad {
		return xerr
	}
	orig := a.V.(string)
	s, test := orig, b.V.(string)
	place := func(p int) int { return p } // position in orig of a position in s
	if fold {
		var starts map[int]int
		s, starts = upperText(orig)
		test, _ = upperText(test)
		place = func(p int) int { return starts[p] }
		if name == "Replace" && !(sameUpper(orig) && sameUpper(b.V.(string))) {
			return xunspec
		}
	}
	at := occurrences(s, test)
	switch name {
	case "Contains":
		return xbool(len(at) > 0)
	case "StartsWith":
		return xbool(len(at) > 0 && at[0] == 0)
	case "EndsWith":
		return xbool(len(at) > 0 && at[len(at)-1] == len(s)-len(test))
	case "IndexOf":
		if len(at) == 0 {
			return xint(-1)
		}
		return xint(int64(place(at[0])))
	case "LastIndexOf":
		if len(at) == 0 {
			return xint(-1)
		}
		return xint(int64(place(at[len(at)-1])))
	case "StrCount":
		return xint(int64(len(disjoint(at, len(test)))))
	case "StrCmp":
		return xint(int64(strings.Compare(s, test)))
	case "NthIndexOf":
		if test == "" {
			return xunspec
		}
		i := xconv(v[2], xInt64).V.(int64)
		if i < 0 || i >= int64(len(at)) {
			return xint(-1)
		}
		return xint(int64(place(at[i])))
	case "Split", "Replace":
		if test == "" {
			if name == "Split" {
				return xval(xStr, "")
			}
			return xunspec
		}
		var pieces []string
		start := 0
		for _, p := range disjoint(at, len(test)) {
			pieces = append(pieces, orig[start:place(p)])
			start = place(p + len(test))
		}
		if name == "Split" && len(pieces) == 0 {
			return xval(xStr, "")
		}
		pieces = append(pieces, orig[start:])
		if name == "Replace" {
			return xval(xStr, strings.Join(pieces, v[2].V.(string)))
		}
		i := xconv(v[2], xInt64).V.(int64)
		if i < 0 || i >= int64(len(pieces)) {
			return xval(xStr, "")
		}
		return xval(xStr, pieces[i])
	}
	panic("unknown function " + name)
}

// sameUpper tells whether each character has an upper case form of its length.
func sameUpper(s string) bool {
	for _, r := range s {
		if utf8.RuneLen(r) != utf8.RuneLen(unicode.ToUpper(r)) {
			return false
		}
	}
	return utf8.ValidString(s)
}

// upperText is a text with every character in upper case and where in the text
// the character starting at each position comes from.
func upperText(s string) (string, map[int]int) {
	out, starts := "", map[int]int{}
	for i, r := range s {
		starts[len(out)] = i
		out += string(unicode.ToUpper(r))
	}
	starts[len(out)] = len(s)
	return out, starts
}

// occurrences lists all places where a text occurs, including overlapping ones.
func occurrences(s, test string) (at []int) {
	for i := 0; i+len(test) <= len(s); i++ {
		if s[i:i+len(test)] == test {
			at = append(at, i)
		}
	}
	return
}

func disjoint(at []int, size int) (out []int) {
	next := 0
	for _, p := range at {
		if p >= next {
			out = append(out, p)
			next = p + size
		}
	}
	return
}

func xmath1(name string, a xv) xout {
	if !a.isNum() {
		return xerr
	}
	if a.Null {
		if name == "Sqrt" {
			return xnullAny(a.T)
		}
		return xnull(a.T)
	}
	if name == "Sqrt" {
		f := xconv(a, xDbl)
		if f.bad() {
			return f
		}
		return xval(xDbl, math.Sqrt(f.V.(float64)))
	}
	switch a.T {
	case xInt32, xInt64:
		if x := a.V.(int64); name == "Abs" && x < 0 {
			if x == math.MinInt64 || a.T == xInt32 && x == math.MinInt32 {
				return xunspec
			}
			return xval(a.T, -x)
		}
	case xDec:
		r := a.V.(*big.Rat)
		switch name {
		case "Abs":
			return xval(xDec, new(big.Rat).Abs(r))
		case "Floor":
			return xval(xDec, ratFloor(r))
		case "Ceiling":
			n := ratFloor(new(big.Rat).Neg(r))
			return xval(xDec, n.Neg(n))
		case "Round":
			return xval(xDec, ratRound(r, 0))
		}
	case xDbl:
		f := a.V.(float64)
		switch name {
		case "Abs":
			if f < 0 {
				f = -f
			}
		case "Floor":
			f = math.Floor(f)
		case "Ceiling":
			f = math.Ceil(f)
		case "Round":
			if math.Abs(f) < 1<<52 {
				t := math.Trunc(f)
				if math.Abs(f-t) >= 0.5 {
					t += math.Copysign(1, f)
				}
				f = t
			}
		}
		return xval(xDbl, f)
	}
	return xout{xv: a}
}

func xpower(a, b xv) xout {
	if !a.isNum() || !b.isNum() {
		return xerr
	}
	if a.Null || b.Null {
		return xnullAny(a.T)
	}
	t := max(a.T, b.T)
	x, y := xconv(a, t), xconv(b, t)
	if x.bad() || y.bad() {
		return orBad(x, y)
	}
	switch t {
	case xBool:
		return xbool(x.V.(bool) || !y.V.(bool))
	case xInt32, xInt64:
		f := math.Trunc(math.Pow(float64(x.V.(int64)), float64(y.V.(int64))))
		if math.Abs(f) >= 1<<53 || t == xInt32 && math.Abs(f) > math.MaxInt32 || math.IsNaN(f) {
			return xunspec
		}
		return xval(t, int64(f))
	case xDec:
		r, p := x.V.(*big.Rat), y.V.(*big.Rat)
		if r.Sign() == 0 && p.Sign() < 0 {
			return xerr
		}
		if !p.IsInt() || p.Num().BitLen() > 6 {
			f := math.Pow(ratFloat(r), ratFloat(p))
			if math.IsNaN(f) {
				return xerr
			}
			if math.Abs(f) > 1e15 || math.Abs(f) < 1e-15 {
				return xunspec
			}
			if p.IsInt() {
				return xunspec
			}
			o := xval(xDec, ratOf(big.NewFloat(f).Text('f', 30)))
			o.Approx = true
			return o
		}
		e := p.Num().Int64()
		z := ratInt(1)
		for i := int64(0); i < e || i < -e; i++ {
			z.Mul(z, r)
		}
		if e >= 0 {
			return xval(xDec, z)
		}
		o := xval(xDec, z.Inv(z))
		if f := math.Abs(ratFloat(z)); f > 1e12 {
			return xunspec
		}
		o.Approx = true
		return o
	}
	return xval(xDbl, math.Pow(x.V.(float64), y.V.(float64)))
}

func xtextFn(name, s string) xout {
	switch name {
	case "Len":
		return xint(int64(len(s)))
	case "Lower":
		return xval(xStr, strings.ToLower(s))
	case "Upper":
		return xval(xStr, strings.ToUpper(s))
	case "Reverse":
		if !utf8.ValidString(s) {
			return xunspec
		}
		out := ""
		for _, r := range s {
			out = string(r) + out
		}
		return xval(xStr, out)
	}
	r := []rune(s)
	if !utf8.ValidString(s) {
		return xunspec
	}
	for name != "TrimRight" && len(r) > 0 && unicode.IsSpace(r[0]) {
		r = r[1:]
	}
	for name != "TrimLeft" && len(r) > 0 && unicode.IsSpace(r[len(r)-1]) {
		r = r[:len(r)-1]
	}
	return xval(xStr, string(r))
}

func xsubstr(v []xv) xout {
	if v[0].T != xStr || !v[1].isInt() || len(v) > 2 && !v[2].isInt() || v[1].Null {
		return xerr
	}
	if v[0].Null {
		return xnull(xStr)
	}
	s := v[0].V.(string)
	from := xconv(v[1], xInt64).V.(int64)
	if from < 0 || from >= int64(len(s)) {
		return xval(xStr, "")
	}
	to := int64(len(s))
	if len(v) > 2 && !v[2].Null {
		n := xconv(v[2], xInt64).V.(int64)
		if n <= 0 {
			return xval(xStr, "")
		}
		if n < to-from {
			to = from + n
		}
	}
	if !utf8.ValidString(s[from:to]) {
		return xunspec
	}
	return xval(xStr, s[from:to])
}

func xisKind(name string, a xv) xout {
	if a.Null {
		return xbool(false)
	}
	if a.T == xStr {
		s := a.V.(string)
		num, integer := plainNumber.MatchString(s), plainInt.MatchString(s)
		_, date := parseDateText(s)
		_, gerr := parseGUID(s)
		isGUID := gerr == nil && strings.Count(s, "-") == 4 && formatGUIDText(s) == strings.ToLower(s)
		word := s == "" || !strings.ContainsAny(s, "0123456789abcdefABCDEFxXnNiIpP_")
		switch name {
		case "IsDate":
			if date {
				return xbool(true)
			}
			if s == "" || s == "hello" || s == "Freq" {
				return xbool(false)
			}
			return xunspec
		case "IsInteger":
			if integer {
				return xbool(true)
			}
			if word || num && strings.Contains(s, ".") || date || isGUID {
				return xbool(false)
			}
		case "IsNumeric":
			if num {
				return xbool(true)
			}
			if word || date || isGUID {
				return xbool(false)
			}
		case "IsGuid":
			if isGUID {
				return xbool(true)
			}
			if len(s) < 32 {
				return xbool(false)
			}
		}
		return xunspec
	}
	switch name {
	case "IsDate":
		return xbool(a.T == xTime)
	case "IsGuid":
		return xbool(a.T == xGuid)
	case "IsInteger":
		return xbool(a.isInt())
	}
	return xbool(a.isNum())
}

func formatGUIDText(s string) string {
	g, err := parseGUID(s)
	if err != nil {
		return ""
	}
	return formatGUID(g)
}

func xdate(name string, v []xv) xout {
	interval := v[len(v)-1]
	if v[0].T != xTime && v[0].T != xStr || interval.T != xStr {
		return xerr
	}
	switch name {
	case "DateAdd":
		if !v[1].isInt() || v[1].Null {
			return xerr
		}
	case "DateDiff":
		if v[1].T != xTime && v[1].T != xStr {
			return xerr
		}
	}
	if interval.Null {
		return xerr
	}
	iv := parseInterval(interval.V.(string))
	if v[0].Null || name == "DateDiff" && v[1].Null {
		if iv == "" {
			return xunspec
		}
		if name == "DateAdd" {
			return xnullAny(xTime)
		}
		return xnull(xInt32)
	}
	if iv == "" {
		return xerr
	}
	d := xconv(v[0], xTime)
	if d.bad() {
		return d
	}
	a := d.V.(time.Time)
	switch name {
	case "DateAdd":
		n := xconv(v[1], xInt64).V.(int64)
		return xdateAdd(a, n, iv)
	case "DateDiff":
		o := xconv(v[1], xTime)
		if o.bad() {
			return o
		}
		return xdateDiff(a, o.V.(time.Time), iv)
	}
	y, m, day := a.Date()
	switch iv {
	case "Year":
		return xint(int64(y))
	case "Month":
		return xint(int64(m))
	case "Day":
		return xint(int64(day))
	case "DayOfYear":
		jan := time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC)
		return xint(int64(time.Date(y, m, day, 0, 0, 0, 0, time.UTC).Sub(jan)/(24*time.Hour)) + 1)
	case "Week":
		// the ISO week of a date is the ordinal of the week that has its Thursday
		wd := (int(a.Weekday()) + 6) % 7
		th := time.Date(y, m, day+3-wd, 0, 0, 0, 0, time.UTC)
		jan := time.Date(th.Year(), 1, 1, 0, 0, 0, 0, time.UTC)
		return xint(int64(th.Sub(jan)/(7*24*time.Hour)) + 1)
	case "WeekDay":
		return xint(int64(a.Weekday()) + 1)
	case "Hour":
		return xint(int64(a.Hour()))
	case "Minute":
		return xint(int64(a.Minute()))
	case "Second":
		return xint(int64(a.Second()))
	}
	return xint(int64(a.Nanosecond()) / 1000000)
}

func xdateAdd(a time.Time, n int64, iv string) xout {
	limit := map[string]int64{"Year": 200, "Month": 2400, "Week": 10000, "Day": 80000, "DayOfYear": 80000, "WeekDay": 80000, "Hour": 2000000}[iv]
	if limit == 0 {
		limit = 100000000
	}
	if n > limit || n < -limit || a.Year() < 1000 || a.Year() > 9000 {
		return xunspec
	}
	y, m, d := a.Date()
	switch iv {
	case "Year":
		y += int(n)
	case "Month":
		m += time.Month(n)
	case "Day", "DayOfYear", "WeekDay":
		d += int(n)
	case "Week":
		d += 7 * int(n)
	case "Hour":
		return xval(xTime, a.Add(time.Duration(n)*time.Hour))
	case "Minute":
		return xval(xTime, a.Add(time.Duration(n)*time.Minute))
	case "Second":
		return xval(xTime, a.Add(time.Duration(n)*time.Second))
	case "Millisecond":
		return xval(xTime, a.Add(time.Duration(n)*time.Millisecond))
	}
	h, mi, s := a.Clock()
	return xval(xTime, time.Date(y, m, d, h, mi, s, a.Nanosecond(), time.UTC))
}

func xdateDiff(a, b time.Time, iv string) xout {
	switch iv {
	case "Year":
		return xint(int64(b.Year() - a.Year()))
	case "Month":
		return xint(int64((b.Year()-a.Year())*12 + int(b.Month()) - int(a.Month())))
	}
	unit := map[string]time.Duration{"Day": 24 * time.Hour, "DayOfYear": 24 * time.Hour, "WeekDay": 24 * time.Hour,
		"Week": 7 * 24 * time.Hour, "Hour": time.Hour, "Minute": time.Minute, "Second": time.Second, "Millisecond": time.Millisecond}[iv]
	delta := b.Sub(a)
	if delta.Abs() > 290*365*24*time.Hour || delta.Abs() < 0 {
		return xunspec
	}
	q, rem := int64(delta/unit), (delta % unit).Abs()
	if rem != 0 && unit > time.Millisecond && (rem < time.Millisecond || unit-rem < time.Millisecond) || !fitsInt32(q) {
		return xunspec
	}
	return xint(q)
}
