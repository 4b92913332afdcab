package props

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/sttp/goapi/sttp/data"
	"pgregory.net/rapid"
)

// xcols are the columns of the rows that generated expressions refer to: two of each type.
var xcols = func() (cols []colSpec) {
	for t, n := range typeNames {
		cols = append(cols, colSpec{Name: "Col" + n, Type: t}, colSpec{Name: n + "_2", Type: t})
	}
	return
}()

var xrunes = rapid.RuneFrom([]rune("aabbABAB xX.1_'éÉäΣσɐⱯıſ中😀 %*-,"))

var xwords = []string{"", "a", "A", "ab", "AB", "aba", "ababa", "abcabc", "b", " a ", "é", "É", "Freq", "hello", "it's", "1", "0", "-7", "2.5", "10", "true", "False",
	"2020-02-29", "2021-09-11 14:46:39", "00000000-0000-0000-0000-000000000001", "x.y", "a,b,,c", "%", "a%", "中a😀", "Σσ", "ɐaⱯA", "中中,abc,A,a", "\ta\t", "3000000000"}

func genXText(t *rapid.T) string {
	if rapid.IntRange(0, 2).Draw(t, "textkind") > 0 {
		return rapid.SampledFrom(xwords).Draw(t, "word")
	}
	return rapid.StringOfN(xrunes, 0, 9, -1).Draw(t, "text")
}

// genXCell draws a value for a column of the row.
func genXCell(t *rapid.T, typ int, nulls bool) cell {
	if nulls && rapid.IntRange(0, 4).Draw(t, "null") == 0 {
		return cell{Null: true}
	}
	switch typ {
	case tString:
		return cell{S: genXText(t), Raw: rapid.IntRange(0, 5).Draw(t, "raw") == 0}
	case tDateTime:
		if rapid.IntRange(0, 4).Draw(t, "timekind") > 0 {
			return cell{S: genXTime(t)}
		}
	case tUInt64, tUInt32:
		if rapid.IntRange(0, 9).Draw(t, "half") == 0 { // around the largest signed value
			n := uint64(math.MaxInt32) + uint64(rapid.IntRange(0, 1).Draw(t, "past"))
			if typ == tUInt64 {
				n += math.MaxInt64 - math.MaxInt32
			}
			return cell{S: strconv.FormatUint(n, 10)}
		}
	}
	return cell{S: genCellText(t, typ)}
}

func genXTime(t *rapid.T) string {
	if rapid.Bool().Draw(t, "edge") {
		return rapid.SampledFrom([]string{"1970-01-01T00:00:00Z", "2020-02-29T00:00:00Z", "2021-09-11T14:46:39Z", "2020-12-31T23:59:59.999Z", "2021-01-01T00:00:00Z", "1999-12-31T23:59:59Z",
			"2024-01-31T12:00:00Z", "2016-01-03T06:07:08.25Z", "1969-12-31T23:59:58.5Z"}).Draw(t, "time")
	}
	sec := rapid.Int64Range(-2177452800, 4070908800).Draw(t, "sec")
	ms := rapid.SampledFrom([]int64{0, 0, 1, 250, 999}).Draw(t, "ms")
	return time.Unix(sec, ms*1e6).UTC().Format(time.RFC3339Nano)
}

// xgen draws expressions.
type xgen struct {
	t     *rapid.T
	nulls bool // NULL literals
	fns   bool // functions
	ops   bool // operators
	cols  bool // columns
	chaos int  // percent of operands of an arbitrary type
}

func (g *xgen) n(lo, hi int, label string) int { return rapid.IntRange(lo, hi).Draw(g.t, label) }

func (g *xgen) pick(label string, list ...string) string {
	return rapid.SampledFrom(list).Draw(g.t, label)
}

func (g *xgen) node(k, s string, kids ...xnode) xnode {
	return xnode{K: k, S: s, Kids: kids, Alt: g.n(0, 23, "alt"), Bare: g.n(0, 1, "bare") == 1}
}

// leafCols are the columns whose value has the type, as far as that does not depend on the row.
func leafCols(typ int) (names []string) {
	for _, c := range xcols {
		if colValue(c.Type, cell{Null: true}).T == typ {
			names = append(names, c.Name)
		}
	}
	return
}

func (g *xgen) leaf(typ int) xnode {
	if g.nulls && g.n(0, 9, "nulllit") == 0 {
		return g.node("null", "")
	}
	if g.cols && g.n(0, 1, "col") == 1 {
		return g.node("col", g.pick("column", leafCols(typ)...))
	}
	return g.lit(typ)
}

func (g *xgen) lit(typ int) xnode {
	n := g.node("lit", "")
	n.T = typ
	switch typ {
	case xBool:
		n.S = g.pick("bool", "true", "false")
	case xInt32:
		if g.n(0, 1, "small") == 1 {
			n.S = strconv.Itoa(g.n(0, 12, "int"))
		} else {
			n.S = strconv.FormatInt(rapid.OneOf(rapid.SampledFrom([]int64{0, 1, 2, 31, 32, 63, 64, 255, 65535, 65536, math.MaxInt32, math.MaxInt32 - 1}), rapid.Int64Range(0, math.MaxInt32)).Draw(g.t, "int"), 10)
		}
	case xInt64:
		n.S = strconv.FormatInt(rapid.OneOf(rapid.SampledFrom([]int64{math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, 9007199254740993, math.MaxInt64, math.MaxInt64 - 1}), rapid.Int64Range(math.MaxInt32+1, math.MaxInt64)).Draw(g.t, "long"), 10)
	case xDec:
		n.S = rapid.OneOf(rapid.SampledFrom([]string{"0.0", "1.0", "0.5", "2.5", "1.10", "3.0", "0.1", "12345678901234567890", "9223372036854775808", "18446744073709551615", "18446744073709551616", "123456789012345678901234567890", "0.000000000001", "99999999999999999999.5", "0.3333333333333333"}),
			rapid.Custom(func(t *rapid.T) string {
				return fmt.Sprintf("%d.%0*d", rapid.IntRange(0, 5000).Draw(t, "whole"), rapid.IntRange(1, 8).Draw(t, "digits"), rapid.IntRange(0, 9).Draw(t, "frac"))
			})).Draw(g.t, "dec")
	case xDbl:
		n.S = rapid.OneOf(rapid.SampledFrom([]string{"0E0", "1E0", "5E-1", "2.5E0", "1e10", "1E-10", "1.5e3", "1E300", "3.5E0", "9.007199254740993E15"}),
			rapid.Custom(func(t *rapid.T) string {
				return fmt.Sprintf("%d.%dE%d", rapid.IntRange(0, 99).Draw(t, "whole"), rapid.IntRange(0, 99).Draw(t, "frac"), rapid.IntRange(-3, 6).Draw(t, "exp"))
			})).Draw(g.t, "dbl")
	case xStr:
		n.S = genXText(g.t)
		if _, err := parseGUID(n.S); err == nil {
			n.S = "g" + n.S // quoted GUID text is a GUID literal
		}
	case xGuid:
		n.S = genGUIDText(g.t)
	case xTime:
		n.S = genXTime(g.t)
	}
	return n
}

func (g *xgen) anyType() int { return g.n(xBool, xTime, "anytype") }

func (g *xgen) numType() int { return g.n(xBool, xDbl, "numtype") }

// small draws an integer mostly in a small range, possibly negative.
func (g *xgen) small(lo, hi int) xnode {
	v := g.n(lo, hi, "smallint")
	n := xnode{K: "lit", T: xInt32, S: strconv.Itoa(max(v, -v))}
	if v < 0 {
		n = xnode{K: "un", S: "-", Kids: []xnode{n}}
	}
	return n
}

// expr draws an expression expected to have the type.
func (g *xgen) expr(typ, depth int) xnode {
	if g.chaos > 0 && g.n(1, 100, "chaos") <= g.chaos {
		typ = g.anyType()
	}
	if depth <= 0 || g.n(0, 5, "leaf") == 0 {
		return g.leaf(typ)
	}
	if g.fns && (!g.ops || g.n(0, 2, "fn") > 0) {
		return g.fn(typ, depth)
	}
	return g.op(typ, depth)
}

func (g *xgen) op(typ, depth int) xnode {
	d := depth - 1
	switch typ {
	case xBool:
		switch g.n(0, 9, "boolop") {
		case 0, 1, 2:
			l, r := g.comparable()
			return g.node("bin", g.pick("cmp", "<", "<=", ">", ">=", "=", "<>", "===", "!=="), g.expr(l, d), g.expr(r, d))
		case 3, 4:
			return g.node("bin", g.pick("logic", "and", "or"), g.expr(xBool, d), g.expr(xBool, d))
		case 5:
			return g.node("un", "not", g.expr(xBool, d))
		case 6:
			n := g.node("like", "like", g.expr(xStr, d), g.pattern(d))
			if g.n(0, 11, "longlike") == 0 {
				n.Kids = g.longLike()
			}
			n.Not, n.Exact = g.n(0, 2, "not") == 0, g.n(0, 2, "exact") == 0
			return n
		case 7:
			l, r := g.comparable()
			kids := []xnode{g.expr(l, d)}
			for i := g.n(1, 4, "items"); i > 0; i-- {
				kids = append(kids, g.expr(r, min(d, 1)))
			}
			if g.n(0, 11, "longlist") == 0 {
				for i := g.n(10, 120, "longitems"); i > 0; i-- {
					kids = append(kids, kids[1+i%(len(kids)-1)])
				}
			}
			if g.n(0, 2, "hit") == 0 {
				kids = append(kids, kids[0])
			}
			n := g.node("in", "in", kids...)
			n.Not, n.Exact = g.n(0, 2, "not") == 0, g.n(0, 2, "exact") == 0
			return n
		case 8:
			n := g.node("isnull", "", g.expr(g.anyType(), d))
			n.Not = g.n(0, 1, "not") == 0
			return n
		}
		return g.node("bin", g.pick("boolbits", "&", "|", "^", "+", "-", "<<", ">>"), g.expr(xBool, d), g.expr(xBool, d))
	case xInt32, xInt64:
		switch g.n(0, 5, "intop") {
		case 0:
			return g.node("un", g.pick("unary", "-", "+", "not"), g.expr(typ, d))
		case 1:
			lim := 31
			if typ == xInt64 {
				lim = 63
			}
			s := g.small(-lim, lim)
			if g.n(0, 3, "anyshift") == 0 {
				s = g.expr(g.n(xBool, xInt64, "shifttype"), d)
			}
			return g.node("bin", g.pick("shift", "<<", ">>"), g.expr(typ, d), s)
		}
		l, r := typ, typ
		if g.n(0, 1, "mixed") == 0 {
			if o := g.n(xBool, typ, "other"); g.n(0, 1, "side") == 0 {
				l = o
			} else {
				r = o
			}
		}
		return g.node("bin", g.pick("arith", "+", "-", "*", "/", "%", "&", "|", "^"), g.expr(l, d), g.expr(r, d))
	case xDec, xDbl:
		if g.n(0, 4, "numop") == 0 {
			return g.node("un", g.pick("unary", "-", "+"), g.expr(typ, d))
		}
		l, r := typ, typ
		if g.n(0, 1, "mixed") == 0 {
			if o := g.n(xBool, typ, "other"); g.n(0, 1, "side") == 0 {
				l = o
			} else {
				r = o
			}
		}
		return g.node("bin", g.pick("arith", "+", "-", "*", "/"), g.expr(l, d), g.expr(r, d))
	case xStr:
		l, r := xStr, g.anyType()
		if g.n(0, 2, "side") == 0 {
			l, r = g.numType(), xStr
		}
		return g.node("bin", "+", g.expr(l, d), g.expr(r, d))
	}
	if g.fns {
		return g.fn(typ, depth)
	}
	return g.leaf(typ)
}

// comparable draws two operand types that can be compared.
func (g *xgen) comparable() (l, r int) {
	switch g.n(0, 7, "cmptypes") {
	case 0, 1:
		l = g.anyType()
		return l, l
	case 2, 3:
		return g.numType(), g.numType()
	case 4:
		return xStr, g.anyType()
	case 5:
		return g.n(xBool, xTime, "left"), xStr
	case 6:
		return xStr, xStr
	}
	l = g.n(xGuid, xTime, "left")
	return l, l
}

func (g *xgen) pattern(d int) xnode {
	if g.n(0, 3, "anypattern") == 0 {
		return g.expr(xStr, d)
	}
	p := strings.Trim(genXText(g.t), "%*")
	if g.n(0, 1, "lead") == 0 {
		p = g.pick("wild", "%", "*") + p
	}
	if g.n(0, 1, "trail") == 0 {
		p += g.pick("wild", "%", "*")
	}
	if _, err := parseGUID(p); err == nil {
		p += "%"
	}
	n := g.node("lit", p)
	n.T = xStr
	return n
}

// longLike draws a long text and a pattern for one of its ends or for all of it.
func (g *xgen) longLike() []xnode {
	text := strings.Repeat("abc 0", g.n(20, 400, "long")) + strings.Trim(genXText(g.t), "%*")
	p := text
	switch g.n(0, 3, "longpattern") {
	case 0:
		p = "%" + text[len(text)-g.n(1, 9, "ends"):]
	case 1:
		p = text[:g.n(1, 9, "starts")] + "%"
	case 2:
		p = "%c 0" + strings.Trim(genXText(g.t), "%*")
	}
	if !utf8.ValidString(p) {
		p = "%"
	}
	l, r := g.node("lit", text), g.node("lit", p)
	l.T, r.T = xStr, xStr
	return []xnode{l, r}
}

func (g *xgen) call(name string, kids ...xnode) xnode {
	if g.chaos > 0 && g.n(0, 40, "arity") == 0 {
		if len(kids) > 1 && g.n(0, 1, "fewer") == 0 {
			kids = kids[:len(kids)-1]
		} else {
			kids = append(kids, g.leaf(g.anyType()))
		}
	}
	return g.node("fn", name, kids...)
}

// withFold sometimes adds the argument that makes a text function ignore case.
func (g *xgen) withFold(d int, kids ...xnode) []xnode {
	switch g.n(0, 5, "fold") {
	case 0, 1:
		return append(kids, g.lit(xBool))
	case 2:
		return append(kids, g.expr(xBool, d))
	case 3:
		return append(kids, g.lit(xInt32))
	}
	return kids
}

// dateArg draws a DateTime or a text that reads as one.
func (g *xgen) dateArg(d int) xnode {
	if g.n(0, 4, "datetext") == 0 {
		n := g.node("lit", g.pick("date", "2020-02-29", "2021-09-11 14:46:39", "1999-12-31 23:59:59.123", "2020-01-01T00:00:00Z"))
		n.T = xStr
		return n
	}
	return g.expr(xTime, d)
}

func (g *xgen) interval(d int) xnode {
	if g.n(0, 14, "oddinterval") == 0 {
		return g.expr(xStr, d)
	}
	n := g.node("lit", xkeyword[g.n(0, 2, "case")](g.pick("interval", intervalNames...)))
	if g.n(0, 5, "pad") == 0 {
		n.S = " " + n.S + " "
	}
	n.T = xStr
	return n
}

func (g *xgen) typeName() xnode {
	n := g.node("lit", g.pick("typename", append([]string{"Single", "Float", "Float64", "Bool", "Int", "UInt16", "Date", "Time", "UUID", "System.String", "system.int32", "Nope", "", "Undefined", "System."}, xtNames...)...))
	n.S = xkeywordSafe(n.S, g.n(0, 3, "case"))
	n.T = xStr
	return n
}

func xkeywordSafe(s string, i int) string {
	switch i {
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToLower(s)
	}
	return s
}

var xregexes = []string{"b c?$", "x$", "a", "^a", "b$", "[ab]+", "a.b", "(?i)AB", "\\d+", "x?", "^$", "(", "[", "a|b", "\\.", "é", "^.{2}", "*"}

// convertTo converts something to a type.
func (g *xgen) convertTo(typ, d int) xnode {
	names := [][]string{{"Boolean", "bool"}, {"Int32", "INT32"}, {"Int64", "int", "System.Int64"}, {"Decimal", "decimal"}, {"Double", "single", "FLOAT"}, {"String", "System.String"}, {"Guid", "uuid"}, {"DateTime", "date"}}[typ]
	n := g.node("lit", g.pick("target", names...))
	n.T = xStr
	src := g.anyType()
	if typ >= xGuid {
		src = []int{xStr, typ}[g.n(0, 1, "src")]
	}
	if typ != xStr && g.n(0, 3, "textof") == 0 {
		return g.call("Convert", g.textOf(typ), n)
	}
	return g.call("Convert", g.expr(src, d), n)
}

// textOf draws a String whose text is that of a value of the type; as a literal the text of a GUID would be a GUID.
func (g *xgen) textOf(typ int) xnode {
	n := g.lit(typ)
	if typ == xTime {
		n.S = g.pick("date", "2020-02-29", "2021-09-11 14:46:39", "1999-12-31 23:59:59.123", "2020-01-01T00:00:00Z")
	}
	n.S, n.T = " "+xkeywordSafe(n.S, g.n(0, 2, "case")), xStr
	return g.call("Trim", n)
}

func (g *xgen) fn(typ, depth int) xnode {
	d := depth - 1
	// functions that return one of their arguments
	switch g.n(0, 9, "generic") {
	case 0:
		return g.call("IIf", g.expr(xBool, d), g.expr(typ, d), g.expr(typ, d))
	case 1, 2:
		kids := []xnode{g.expr(typ, d), g.expr(typ, d)}
		for g.n(0, 2, "more") == 0 && len(kids) < 5 {
			kids = append(kids, g.expr(typ, d))
		}
		if g.n(0, 11, "many") == 0 {
			// the ones drawn repeatedly, then perhaps another
			for i := g.n(5, 60, "manyargs"); i > 0; i-- {
				kids = append(kids, kids[i%2])
			}
			kids = append(kids, g.expr(typ, d))
		}
		name := g.pick("generic", "Coalesce", "MaxOf", "MinOf")
		if name != "Coalesce" && typ <= xDbl && g.n(0, 1, "mixed") == 0 {
			kids[1] = g.expr(g.numType(), d)
		}
		return g.call(name, kids...)
	case 3:
		return g.call("IsNull", g.expr(typ, d), g.expr(typ, d))
	case 4:
		return g.convertTo(typ, d)
	}
	text := func() xnode {
		if g.n(0, 15, "longtext") == 0 {
			n := g.node("lit", strings.Repeat(g.pick("repeated", "ab", "a-b c", "Aé", "0 "), g.n(40, 400, "times"))+genXText(g.t))
			n.T = xStr
			return n
		}
		return g.expr(xStr, d)
	}
	switch typ {
	case xBool:
		switch g.n(0, 3, "boolfn") {
		case 0:
			if g.n(0, 2, "istext") == 0 {
				return g.call(g.pick("is", xis...), g.textOf(g.anyType()))
			}
			return g.call(g.pick("is", xis...), g.expr(g.anyType(), d))
		case 1:
			return g.call("RegExMatch", g.regex(d), text())
		}
		a := text()
		return g.call(g.pick("find", "Contains", "StartsWith", "EndsWith"), g.withFold(d, a, g.part(a, d))...)
	case xInt32:
		switch g.n(0, 6, "intfn") {
		case 0:
			return g.call("DatePart", g.dateArg(d), g.interval(d))
		case 1:
			return g.call("DateDiff", g.dateArg(d), g.dateArg(d), g.interval(d))
		case 2:
			return g.call("Len", text())
		case 3:
			a := text()
			if g.n(0, 3, "overlap") == 0 {
				p := strings.Fields(g.pick("overlap", "aaaa aa", "aAaAaa aa", "ababababa aba", "--x--- --", "ééééé éé"))
				x, y := g.node("lit", p[0]), g.node("lit", p[1])
				x.T, y.T = xStr, xStr
				if g.n(0, 3, "times") == 0 {
					x.S = strings.Repeat(x.S, g.n(2, 60, "repeat")) + "!" // not the text of a GUID
					return g.call("NthIndexOf", g.withFold(d, x, y, g.small(5, 90))...)
				}
				return g.call("NthIndexOf", g.withFold(d, x, y, g.small(0, 3))...)
			}
			return g.call("NthIndexOf", g.withFold(d, a, g.part(a, d), g.small(-1, 3))...)
		case 4:
			return g.number(typ, d)
		}
		a := text()
		return g.call(g.pick("find", "IndexOf", "LastIndexOf", "StrCount", "StrCmp"), g.withFold(d, a, g.part(a, d))...)
	case xInt64, xDec, xDbl:
		return g.number(typ, d)
	case xStr:
		switch g.n(0, 4, "strfn") {
		case 0:
			return g.call("RegExVal", g.regex(d), text())
		case 1:
			a := text()
			return g.call("Replace", g.withFold(d, a, g.part(a, d), text())...)
		case 2:
			a := text()
			if g.n(0, 9, "pieces") == 0 {
				x, y := g.node("lit", strings.Repeat(g.pick("piece", "a,", "b;;", ",c"), g.n(5, 60, "repeat"))), g.node("lit", g.pick("separator", ",", ";"))
				x.T, y.T = xStr, xStr
				return g.call("Split", g.withFold(d, x, y, g.small(3, 70))...)
			}
			return g.call("Split", g.withFold(d, a, g.part(a, d), g.small(-1, 4))...)
		case 3:
			kids := []xnode{text(), g.index(d)}
			if g.n(0, 2, "length") > 0 {
				kids = append(kids, g.index(d))
			}
			return g.call("SubStr", kids...)
		}
		return g.call(g.pick("text", "Reverse", "Lower", "Upper", "Trim", "TrimLeft", "TrimRight"), text())
	case xTime:
		return g.call("DateAdd", g.dateArg(d), g.amount(d), g.interval(d))
	}
	return g.convertTo(typ, d)
}

func (g *xgen) number(typ, d int) xnode {
	switch g.n(0, 4, "numfn") {
	case 0:
		if typ == xDbl && g.n(0, 1, "sqrt") == 0 {
			return g.call("Sqrt", g.expr(g.numType(), d))
		}
		e := g.small(-3, 6)
		if g.n(0, 4, "anyexp") == 0 {
			e = g.expr(g.numType(), d)
		}
		return g.call("Power", g.expr(typ, d), e)
	}
	return g.call(g.pick("math", "Abs", "Ceiling", "Floor", "Round"), g.expr(typ, d))
}

func (g *xgen) amount(d int) xnode {
	if g.n(0, 5, "anyamount") == 0 {
		return g.expr(g.n(xBool, xInt64, "amounttype"), d)
	}
	return g.small(-40, 1000)
}

func (g *xgen) index(d int) xnode {
	if g.n(0, 5, "anyindex") == 0 {
		return g.expr(g.n(xBool, xInt64, "indextype"), d)
	}
	return g.small(-1, 6)
}

func (g *xgen) regex(d int) xnode {
	if g.n(0, 4, "anyregex") == 0 {
		return g.expr(xStr, d)
	}
	n := g.node("lit", g.pick("regex", xregexes...))
	n.T = xStr
	return n
}

// part draws a text that often occurs in the given literal.
func (g *xgen) part(of xnode, d int) xnode {
	if of.K == "lit" && of.T == xStr && of.S != "" && g.n(0, 1, "part") == 0 {
		r := []rune(of.S)
		from := g.n(0, len(r)-1, "from")
		to := g.n(from, min(len(r), from+3), "to")
		n := g.node("lit", string(r[from:to]))
		n.T = xStr
		if g.n(0, 2, "flip") == 0 {
			n.S = strings.ToUpper(n.S)
		}
		return n
	}
	return g.expr(xStr, d)
}

// xcase is a list of expressions and the rows they are evaluated on.
type xcase struct {
	Exprs []xnode
	Rows  [][]cell
}

func (c xcase) table(name string) (*data.DataSet, *data.DataTable, error) {
	ds := data.NewDataSet()
	dt, err := tableSpec{Name: name, Cols: xcols, Rows: c.Rows}.build(ds)
	return ds, dt, err
}

// genXRows draws values for the columns an expression uses; the others stay null.
func genXRows(t *rapid.T, exprs []xnode, nulls bool, most int) (rows [][]cell) {
	used := map[string]bool{}
	xnode{Kids: exprs}.has(func(n xnode) bool {
		used[strings.ToUpper(n.S)] = used[strings.ToUpper(n.S)] || n.K == "col"
		return false
	})
	if len(used) == 0 {
		most = 1
	}
	for i := rapid.IntRange(1, most).Draw(t, "rows"); i > 0; i-- {
		row := make([]cell, len(xcols))
		for j, c := range xcols {
			switch {
			case !used[strings.ToUpper(c.Name)]:
				row[j].Null = true
			case j%2 == 1 && used[strings.ToUpper(xcols[j-1].Name)] && rapid.IntRange(0, 4).Draw(t, "same") == 0:
				row[j] = row[j-1]
			default:
				row[j] = genXCell(t, c.Type, nulls)
			}
		}
		rows = append(rows, row)
	}
	return
}

func rowEnv(row []cell) *xenv {
	e := &xenv{cols: map[string]xout{}}
	for i, c := range xcols {
		e.cols[strings.ToUpper(c.Name)] = colValue(c.Type, row[i])
	}
	return e
}

func (n xnode) has(f func(xnode) bool) bool {
	if f(n) {
		return true
	}
	for _, k := range n.Kids {
		if k.has(f) {
			return true
		}
	}
	return false
}
