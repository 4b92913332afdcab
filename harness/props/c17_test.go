package props

import (
	"fmt"
	"maps"
	"math"
	"slices"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/xml"
	"pgregory.net/rapid"
	"verif/harness/vk"
)

// xmlField says how one field of a row is written.
type xmlField struct {
	Col   int // -1 writes an element that is no column
	Cell  cell
	Style int  // escaping and lexical form
	Bad   bool // Cell.S is not a value of the type
}

type xmlTable struct {
	Name string
	Cols []colSpec
	Odd  []int // positions of columns of an unsupported type, by index into Cols
	Far  []int // positions of columns whose extended attributes are of another namespace
	Junk int   // definitions without a name or type to write between the columns
	Rows [][]xmlField
}

type c17Case struct {
	Prefix   string // schema prefix, empty for the default namespace
	Root     string // name of the root element
	Flaw     string // what is wrong with the schema
	Ext      string // prefix of the extended attributes
	OnRoot   bool   // namespaces are declared on the root element
	Interval bool   // rows of different tables are interleaved
	Tables   []xmlTable
	Damage   []mut
	Reuse    bool // parse via a data set created before
	Scale    c17Scale
}

// c17Scale enlarges a case.
type c17Scale struct {
	Rows, Cols, Tables int // at least so many rows and so many more columns per table, and so many more tables
	Text               int // shortest text of a text field
}

func (c c17Case) scaled() c17Case {
	k := c.Scale
	if k == (c17Scale{}) {
		return c
	}
	tables := append([]xmlTable(nil), c.Tables...)
	for i := 0; i < k.Tables; i++ {
		tables = append(tables, xmlTable{Name: fmt.Sprintf("X%d", i)})
	}
	for i := range tables {
		t := &tables[i]
		first := len(t.Cols)
		t.Cols = append([]colSpec(nil), t.Cols...)
		for n := 0; n < max(k.Cols, 1); n++ {
			t.Cols = append(t.Cols, colSpec{Name: fmt.Sprintf("w%d", n), Type: []int{tInt32, tString}[n%2]})
		}
		old := t.Rows
		t.Rows = nil
		for n := 0; n < max(k.Rows, 1); n++ {
			var r []xmlField
			if len(old) > 0 {
				r = append(r, old[n%len(old)]...)
			}
			for j := range r {
				if f := &r[j]; f.Col >= 0 && !f.Bad && t.Cols[f.Col].Type == tString && n < 3 {
					for len(f.Cell.S) < k.Text {
						f.Cell.S += f.Cell.S + "x"
					}
				}
			}
			for j := first; j < len(t.Cols); j++ {
				if (n+j)%3 != 0 || j == first {
					v := strconv.Itoa(n*100 + j)
					if j == first+1 && i < 2 && n < 3 {
						v = strings.Repeat(v, k.Text/len(v)+1)
					}
					r = append(r, xmlField{Col: j, Cell: cell{S: v}})
				}
			}
			t.Rows = append(t.Rows, r)
		}
	}
	c.Tables = tables
	return c
}

var xsdNames = []string{"string", "boolean", "dateTime", "float", "double", "decimal", "string", "byte", "short", "int", "long", "unsignedByte", "unsignedShort", "unsignedInt", "unsignedLong"}

// escapeXML writes text in one of several equivalent ways.
func escapeXML(s string, style int) string {
	if style%4 == 1 && !strings.Contains(s, "]]>") && !strings.Contains(s, "\r") {
		return "<![CDATA[" + s + "]]>"
	}
	var b strings.Builder
	for i, r := range s {
		switch {
		case r == '&':
			b.WriteString("&amp;")
		case r == '<':
			b.WriteString("&lt;")
		case r == '>':
			b.WriteString("&gt;")
		case r == '"' && style%2 == 0:
			b.WriteString("&quot;")
		case r == '\'' && style%2 == 0:
			b.WriteString("&apos;")
		case r == '\r' || style%4 == 2 && i%2 == 0:
			fmt.Fprintf(&b, "&#x%X;", r)
		case style%4 == 3 && r > 127:
			fmt.Fprintf(&b, "&#%d;", r)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

// lexical writes a value in one of the text forms XML Schema gives it.
func lexical(typ int, s string, style int) string {
	pad := func(s string) string {
		switch style % 8 {
		case 6:
			return " " + s + "\n"
		case 7:
			return s + " "
		}
		return s
	}
	switch typ {
	case tString:
		return escapeXML(s, style)
	case tBool:
		if style%2 == 1 {
			return pad(map[string]string{"true": "1", "false": "0"}[s])
		}
		return pad(s)
	case tDateTime:
		v, _ := time.Parse(time.RFC3339Nano, s)
		switch style % 5 {
		case 0:
			return pad(v.Format("2006-01-02T15:04:05.999999999Z07:00"))
		case 1:
			return pad(v.Format("2006-01-02T15:04:05.999999999-07:00"))
		case 2:
			return pad(v.Format("2006-01-02T15:04:05.999999999"))
		case 3:
			w := v.In(time.FixedZone("", -5*3600))
			if w.Year() < 1 || w.Year() > 9999 {
				return v.Format("2006-01-02T15:04:05.999999999Z07:00")
			}
			return pad(w.Format("2006-01-02T15:04:05.999999999-07:00"))
		default:
			w := v.In(time.FixedZone("", 5*3600+1800))
			if w.Year() < 1 || w.Year() > 9999 {
				return v.Format("2006-01-02T15:04:05.999999999Z07:00")
			}
			return pad(w.Format("2006-01-02T15:04:05.000000000-07:00"))
		}
	case tSingle, tDouble:
		if style%3 == 1 {
			bits := 64
			if typ == tSingle {
				bits = 32
			}
			f, _ := strconv.ParseFloat(s, bits)
			if !math.IsInf(f, 0) && !math.IsNaN(f) {
				return pad(strconv.FormatFloat(f, 'E', -1, bits))
			}
		}
		if f, _ := strconv.ParseFloat(s, 32); typ == tSingle && style%3 == 2 && math.Abs(f) > 1e-20 && math.Abs(f) < 1e20 {
			// Just beyond the middle between the neighbour closer to zero and the value, told only by the last digit
			middle := (f + float64(math.Nextafter32(float32(f), 0))) / 2
			mant, exp, _ := strings.Cut(strconv.FormatFloat(middle, 'e', 150, 64), "e")
			return pad(mant + "1e" + exp)
		}
		return pad(s)
	case tGuid:
		if style%2 == 1 {
			return pad(strings.ToUpper(s))
		}
		return pad(s)
	case tDecimal:
		return pad(s)
	}
	if style%5 == 1 {
		// Leading zeros
		if strings.HasPrefix(s, "-") {
			return pad("-00" + s[1:])
		}
		return pad("00" + s)
	}
	return pad(s)
}

// doc writes the document.
func (c c17Case) doc() string {
	var b strings.Builder
	if c.Root == "" {
		c.Root = "DataSet"
	}
	schemaNS, id := "http://www.w3.org/2001/XMLSchema", c.Root
	switch c.Flaw {
	case "namespace":
		schemaNS = "http://www.w3.org/2001/XMLSchemas"
	case "id":
		id = c.Root + "1"
	}
	ns := fmt.Sprintf(` xmlns:%s="%s" xmlns:%s="urn:schemas-microsoft-com:xml-msdata" xmlns:far="urn:far"`, c.Prefix, schemaNS, c.Ext)
	x := c.Prefix + ":"
	if c.Prefix == "" {
		ns, x = strings.Replace(ns, "xmlns:=", "xmlns=", 1), ""
	}
	root, schema := "", ns
	if c.OnRoot && c.Prefix != "" {
		root, schema = ns, ""
	}
	if c.Flaw != "no id" {
		schema = fmt.Sprintf(" id=\"%s\"", id) + schema
	}
	name := x + "schema"
	if c.Flaw == "missing" {
		name = x + "scheme"
	}
	fmt.Fprintf(&b, "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<%s%s>\n<%s%s><%selement name=\"%s\"><%scomplexType><%schoice minOccurs=\"0\">", c.Root, root, name, schema, x, c.Root, x, x)
	for _, t := range c.Tables {
		fmt.Fprintf(&b, "<%selement name=\"%s\"><%scomplexType><%ssequence>", x, t.Name, x, x)
		for i, col := range t.Cols {
			typ := xsdNames[col.Type]
			for _, o := range t.Odd {
				if o == i {
					typ = "duration"
				}
			}
			ext, prefix := "", c.Ext
			if slices.Contains(t.Far, i) {
				prefix = "far"
			}
			if col.Type == tGuid {
				ext = fmt.Sprintf(" %s:DataType=\"System.Guid, mscorlib\"", prefix)
			}
			if col.Expr != "" {
				ext += fmt.Sprintf(" %s:Expression=\"%s\"", prefix, escapeXML(col.Expr, 0))
			}
			if i < t.Junk {
				fmt.Fprintf(&b, "<%selement %s minOccurs=\"0\"/>", x, []string{`type="` + x + `string"`, `name="" type="` + x + `int"`, `name="NoType"`, `name="EmptyType" type=""`}[(i+t.Junk)%4])
			}
			fmt.Fprintf(&b, "<%selement name=\"%s\" type=\"%s%s\"%s minOccurs=\"0\"/>", x, col.Name, x, typ, ext)
		}
		fmt.Fprintf(&b, "</%ssequence></%scomplexType></%selement>\n", x, x, x)
	}
	fmt.Fprintf(&b, "</%schoice></%scomplexType></%selement></%s>\n", x, x, x, name)
	row := func(t xmlTable, r []xmlField) {
		fmt.Fprintf(&b, "<%s>", t.Name)
		for _, f := range r {
			if f.Col < 0 {
				fmt.Fprintf(&b, "<Unknown>%s</Unknown>", escapeXML(f.Cell.S, f.Style))
				continue
			}
			col := t.Cols[f.Col]
			text := ""
			if f.Bad {
				text = escapeXML(f.Cell.S, f.Style)
			} else {
				text = lexical(col.Type, f.Cell.S, f.Style)
			}
			if text == "" && f.Style%2 == 0 {
				fmt.Fprintf(&b, "<%s/>", col.Name)
			} else {
				fmt.Fprintf(&b, "<%s>%s</%s>", col.Name, text, col.Name)
			}
		}
		fmt.Fprintf(&b, "</%s>\n", t.Name)
	}
	if c.Interval {
		for i, more := 0, true; more; i++ {
			more = false
			for _, t := range c.Tables {
				if i < len(t.Rows) {
					row(t, t.Rows[i])
					more = true
				}
			}
		}
	} else {
		for _, t := range c.Tables {
			for _, r := range t.Rows {
				row(t, r)
			}
		}
	}
	fmt.Fprintf(&b, "</%s>", c.Root)
	return b.String()
}

func execC17(c c17Case, o *vk.Obs) error {
	c = c.scaled()
	doc := []byte(c.doc())
	if len(c.Damage) > 0 {
		o.Label("damaged")
		for _, m := range c.Damage {
			doc = m.apply(doc)
		}
		ds := data.NewDataSet()
		if err := ds.ParseXml(doc); err == nil {
			o.Label("damaged but parsed")
			if !wellFormed(doc) {
				return fmt.Errorf("malformed document accepted\n%s", doc)
			}
			for _, t := range ds.Tables() {
				for i := 0; i < t.RowCount(); i++ {
					for k := 0; k < t.ColumnCount(); k++ {
						t.RowValueAsString(i, k)
					}
				}
			}
		}
		return nil
	}
	if c.Flaw != "" {
		o.Label("schema: %s", c.Flaw)
		o.NonTrivial()
		ds := data.NewDataSet()
		if ds.ParseXml(doc) == nil {
			return fmt.Errorf("document with a flawed schema (%s) is not rejected\n%s", c.Flaw, doc)
		}
		if n := ds.TableCount() + data.FromXml(doc).TableCount(); n != 0 {
			return fmt.Errorf("%d tables loaded from a document with a flawed schema (%s)", n, c.Flaw)
		}
		return nil
	}
	var ds *data.DataSet
	if c.Reuse {
		ds = data.NewDataSet()
		if err := ds.ParseXml(doc); err != nil {
			return fmt.Errorf("valid document rejected: %v\n%s", err, doc)
		}
		if c.Interval {
			// a parsed document loads any number of times, into any data set
			var parsed xml.XmlDocument
			if err := parsed.LoadXml(doc); err != nil {
				return fmt.Errorf("valid document rejected: %v\n%s", err, doc)
			}
			for _, target := range []*data.DataSet{data.NewDataSet(), ds, ds} {
				if err := target.ParseXmlDocument(&parsed); err != nil {
					return fmt.Errorf("valid document rejected when loaded again: %v\n%s", err, doc)
				}
			}
			o.Label("loaded again")
		}
	} else {
		ds = data.FromXml(doc)
	}
	var names, want []string
	for _, t := range ds.Tables() {
		names = append(names, t.Name())
	}
	for _, t := range c.Tables {
		want = append(want, t.Name)
	}
	sort.Strings(names)
	sort.Strings(want)
	if strings.Join(names, ",") != strings.Join(want, ",") {
		return fmt.Errorf("tables %v loaded, document defines %v", names, want)
	}
	values := 0
	for _, t := range c.Tables {
		dt := ds.Table(t.Name)
		if dt == nil {
			return fmt.Errorf("table %s not found", t.Name)
		}
		odd := map[int]bool{}
		for _, i := range t.Odd {
			odd[i] = true
		}
		pos := make([]int, len(t.Cols)) // column index in the loaded table
		k := 0
		for i, col := range t.Cols {
			if odd[i] {
				pos[i] = -1
				continue
			}
			got := dt.Column(k)
			typ, expr := col.Type, col.Expr
			if slices.Contains(t.Far, i) {
				expr = ""
				if typ == tGuid {
					typ = tString
				}
				o.Label("attributes of another namespace")
			}
			if got == nil || got.Name() != col.Name || int(got.Type()) != typ {
				return fmt.Errorf("table %s column %d: got %v, want %s %s", t.Name, k, got, col.Name, typeNames[typ])
			}
			if got.Expression() != expr || got.Index() != k || got.Parent() != dt {
				return fmt.Errorf("table %s column %d: expression %q, want %q", t.Name, k, got.Expression(), expr)
			}
			if expr != "" {
				o.Label("computed column")
			}
			pos[i] = k
			k++
		}
		if dt.ColumnCount() != k {
			return fmt.Errorf("table %s has %d columns, want %d", t.Name, dt.ColumnCount(), k)
		}
		if dt.RowCount() != len(t.Rows) {
			return fmt.Errorf("table %s has %d rows, want %d", t.Name, dt.RowCount(), len(t.Rows))
		}
		for ri, r := range t.Rows {
			wantRow := make([]any, k)
			bad := map[int]bool{}
			for i, col := range t.Cols {
				if pos[i] >= 0 && dt.Column(pos[i]).Expression() != "" {
					v, err := dt.Row(ri).Value(pos[i])
					if err != nil || !sameValue(v, c17Exprs[col.Expr]) {
						return fmt.Errorf("table %s row %d column %s: %s gives %v (error %v), want %v", t.Name, ri, col.Name, col.Expr, v, err, c17Exprs[col.Expr])
					}
					wantRow[pos[i]] = v
				}
			}
			for _, f := range r {
				if f.Col < 0 || pos[f.Col] < 0 || dt.Column(pos[f.Col]).Expression() != "" {
					continue
				}
				if slices.Contains(t.Far, f.Col) && t.Cols[f.Col].Type == tGuid {
					// the text is kept as it is written
					wantRow[pos[f.Col]] = f.Cell.S
					if !f.Bad {
						wantRow[pos[f.Col]] = lexical(tGuid, f.Cell.S, f.Style)
					}
					values++
					continue
				}
				if f.Bad {
					bad[pos[f.Col]] = true
					continue
				}
				v, err := goValue(t.Cols[f.Col].Type, f.Cell.S)
				if err != nil {
					return vk.Broken("value %q: %v", f.Cell.S, err)
				}
				wantRow[pos[f.Col]] = v
				values++
			}
			row := dt.Row(ri)
			for ci := 0; ci < k; ci++ {
				got, err := row.Value(ci)
				if err != nil {
					return fmt.Errorf("table %s row %d column %s: %v", t.Name, ri, dt.Column(ci).Name(), err)
				}
				if bad[ci] {
					o.Label("invalid text")
					zero, _ := goValue(int(dt.Column(ci).Type()), zeroText(int(dt.Column(ci).Type())))
					if !sameValue(got, nil) && !sameValue(got, zero) {
						return fmt.Errorf("table %s row %d column %s: invalid text gave %v", t.Name, ri, dt.Column(ci), got)
					}
					continue
				}
				if !sameValue(got, wantRow[ci]) {
					return fmt.Errorf("table %s row %d column %s: got %#v, want %#v", t.Name, ri, dt.Column(ci), got, wantRow[ci])
				}
			}
		}
	}
	if values > 2 {
		o.NonTrivial()
	}
	return nil
}

// c17Exprs are expressions of computed columns, and their values.
var c17Exprs = map[string]any{"1 + 2": int32(3), "'<' + '&'": "<&", "Len('a\"b') > 2": true, "2.5": decimal.RequireFromString("2.5")}

func zeroText(typ int) string {
	switch typ {
	case tString:
		return ""
	case tBool:
		return "false"
	case tDateTime:
		return "0001-01-01T00:00:00Z"
	case tGuid:
		return "00000000-0000-0000-0000-000000000000"
	}
	return "0"
}

type c17Type struct{ Xsd, Ext string }

var c17Types = map[string]int{"string": tString, "boolean": tBool, "dateTime": tDateTime, "float": tSingle, "double": tDouble, "decimal": tDecimal, "byte": tInt8, "short": tInt16,
	"int": tInt32, "long": tInt64, "unsignedByte": tUInt8, "unsignedShort": tUInt16, "unsignedInt": tUInt32, "unsignedLong": tUInt64}

func execC17Type(c c17Type, o *vk.Obs) error {
	want, known := c17Types[c.Xsd]
	if c.Xsd == "string" && strings.HasPrefix(c.Ext, "System.Guid") {
		want = tGuid
	}
	got, ok := data.ParseXsdDataType(c.Xsd, c.Ext)
	if ok != known || ok && int(got) != want {
		return fmt.Errorf("XSD type %q with %q is %v, %v", c.Xsd, c.Ext, got, ok)
	}
	if known {
		o.NonTrivial()
	}
	return nil
}

func genC17(t *rapid.T) c17Case {
	tables := []string{"MeasurementDetail", "DeviceDetail", "PhasorDetail", "SchemaVersion", "T", "table_1", "Ünïcode"}
	columns := []string{"SignalID", "ID", "PointTag", "Description", "UpdatedOn", "Value", "a", "b_2", "Größe"}
	c := c17Case{Prefix: rapid.SampledFrom([]string{"xs", "xs", "xsd", "q", ""}).Draw(t, "prefix"), Root: rapid.SampledFrom([]string{"DataSet", "DataSet", "NewDataSet", "m"}).Draw(t, "root"),
		Flaw: rapid.SampledFrom([]string{"", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "missing", "id", "no id", "namespace"}).Draw(t, "flaw"), Ext: rapid.SampledFrom([]string{"ext", "msdata", "aa"}).Draw(t, "ext"),
		OnRoot: rapid.Bool().Draw(t, "onroot"), Interval: rapid.Bool().Draw(t, "interleave"), Reuse: rapid.Bool().Draw(t, "reuse")}
	for _, name := range uniqueNames(t, "table", rapid.IntRange(0, 3).Draw(t, "tables"), tables) {
		x := xmlTable{Name: name, Junk: rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3, 4}).Draw(t, "junk")}
		for i, cn := range uniqueNames(t, "column", rapid.IntRange(0, 6).Draw(t, "cols"), columns) {
			x.Cols = append(x.Cols, colSpec{Name: cn, Type: rapid.IntRange(0, tUInt64).Draw(t, "type")})
			if rapid.IntRange(0, 12).Draw(t, "odd") == 0 {
				x.Odd = append(x.Odd, i)
				x.Cols[i].Type = tString
			} else {
				if rapid.IntRange(0, 9).Draw(t, "computed") == 0 {
					x.Cols[i].Expr = rapid.SampledFrom([]string{"1 + 2", "'<' + '&'", "Len('a\"b') > 2", "2.5"}).Draw(t, "expr")
					x.Cols[i].Type = tInt32
					switch c17Exprs[x.Cols[i].Expr].(type) {
					case string:
						x.Cols[i].Type = tString
					case bool:
						x.Cols[i].Type = tBool
					case decimal.Decimal:
						x.Cols[i].Type = tDecimal
					}
				}
				if rapid.IntRange(0, 7).Draw(t, "far") == 0 {
					x.Far = append(x.Far, i)
				}
			}
		}
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, "rows"); i < n; i++ {
			var r []xmlField
			for ci, col := range x.Cols {
				if rapid.IntRange(0, 4).Draw(t, "missing") == 0 {
					continue
				}
				f := xmlField{Col: ci, Style: rapid.IntRange(0, 39).Draw(t, "style")}
				if col.Type != tString && rapid.IntRange(0, 14).Draw(t, "bad") == 0 {
					f.Bad = true
					f.Cell.S = rapid.SampledFrom([]string{"", "x", "--1", "1e", "12:00", "{}", "tru", "🙂", "0xZZ"}).Draw(t, "badtext")
				} else {
					f.Cell.S = genCellText(t, col.Type)
				}
				r = append(r, f)
			}
			if rapid.IntRange(0, 5).Draw(t, "unknown") == 0 {
				r = append(r, xmlField{Col: -1, Cell: cell{S: genText(t)}})
			}
			if len(r) > 1 && rapid.Bool().Draw(t, "shuffle") {
				r = rapid.Permutation(r).Draw(t, "order")
			}
			x.Rows = append(x.Rows, r)
		}
		c.Tables = append(c.Tables, x)
	}
	if rapid.IntRange(0, 9).Draw(t, "damage") == 0 {
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "muts"); i < n; i++ {
			c.Damage = append(c.Damage, genMut(t))
		}
	}
	return c
}

func TestC17(t *testing.T) {
	vk.Run(t, vk.Spec[c17Type]{
		ID: "C17", Name: "types", Rule: "names of XSD types and of others, with an extended type; non-trivial: a type that is supported",
		Quick: 1000, Deep: 20000, Exec: execC17Type,
		Gen: func(t *rapid.T) c17Type {
			c := c17Type{rapid.SampledFrom(slices.Sorted(maps.Keys(c17Types))).Draw(t, "xsd"), rapid.SampledFrom([]string{"", "System.Guid", "System.Guid, mscorlib, Version=4.0.0.0", "System.String", "Guid", "system.guid"}).Draw(t, "ext")}
			switch rapid.IntRange(0, 7).Draw(t, "other") {
			case 0:
				c.Xsd = flip(t, c.Xsd)
			case 1:
				c.Xsd = rapid.SampledFrom([]string{"", "time", "date", "integer", "anyURI", "hexBinary", "xs:int", "unsigned", "guid"}).Draw(t, "name")
			}
			return c
		},
	})
	vk.Run(t, vk.Spec[c17Case]{
		ID: "C17", Name: "xml", Rule: "data sets over all column types written in equivalent XML forms, some damaged; non-trivial: three or more values",
		Quick: 6000, Deep: 300000,
		Gen:  genC17,
		Exec: execC17,
	})
	vk.Run(t, vk.Spec[c17Case]{
		ID: "C17", Name: "large", Rule: "as above, with up to 3000 rows, 100 columns, 40 tables and texts of 100000 characters; non-trivial: three or more values",
		Quick: 20, Deep: 150,
		Gen: func(t *rapid.T) c17Case {
			c := genC17(t)
			c.Damage, c.Flaw = nil, ""
			c.Scale = rapid.SampledFrom([]c17Scale{{Cols: 100, Rows: 3, Tables: 20, Text: 5000}, {Rows: 1100, Cols: 3}, {Tables: 40, Rows: 2, Cols: 2, Text: 40000}, {Rows: 3000}, {Rows: 300, Cols: 40, Tables: 4, Text: 100000}}).Draw(t, "scale")
			if len(c.Tables) == 0 {
				c.Scale.Tables++
			}
			return c
		},
		Exec: execC17,
	})
}
