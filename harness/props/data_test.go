package props

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
	"pgregory.net/rapid"
	"verif/harness/vk"
)

// colSpec is a column of a generated table.
type colSpec struct {
	Name string
	Type int // data.DataTypeEnum
	Expr string
}

// cell is a field value in canonical text; Null means no value.
type cell struct {
	Null bool   `json:",omitempty"`
	S    string `json:",omitempty"`
	Raw  bool   `json:",omitempty"` // text that is not valid UTF-8, see text
}

// text is the text of a value; replay files cannot hold text that is not valid
// UTF-8, so for a raw text each 中 in S stands for the byte FF.
func (c cell) text() string {
	if c.Raw {
		return strings.ReplaceAll(c.S, "中", "\xff")
	}
	return c.S
}

// tableSpec is a generated table.
type tableSpec struct {
	Name string
	Cols []colSpec
	Rows [][]cell
}

const (
	tString = iota
	tBool
	tDateTime
	tSingle
	tDouble
	tDecimal
	tGuid
	tInt8
	tInt16
	tInt32
	tInt64
	tUInt8
	tUInt16
	tUInt32
	tUInt64
)

var typeNames = []string{"String", "Boolean", "DateTime", "Single", "Double", "Decimal", "Guid", "Int8", "Int16", "Int32", "Int64", "UInt8", "UInt16", "UInt32", "UInt64"}

// goValue converts canonical text to the Go value a column of the type stores.
func goValue(typ int, s string) (any, error) {
	switch typ {
	case tString:
		return s, nil
	case tBool:
		return s == "true", nil
	case tDateTime:
		return time.Parse(time.RFC3339Nano, s)
	case tSingle:
		f, err := strconv.ParseFloat(s, 32)
		return float32(f), err
	case tDouble:
		return strconv.ParseFloat(s, 64)
	case tDecimal:
		return decimal.NewFromString(s)
	case tGuid:
		return parseGUID(s)
	}
	bits := []int{8, 16, 32, 64}
	if typ <= tInt64 {
		v, err := strconv.ParseInt(s, 10, bits[typ-tInt8])
		switch typ {
		case tInt8:
			return int8(v), err
		case tInt16:
			return int16(v), err
		case tInt32:
			return int32(v), err
		}
		return v, err
	}
	v, err := strconv.ParseUint(s, 10, bits[typ-tUInt8])
	switch typ {
	case tUInt8:
		return uint8(v), err
	case tUInt16:
		return uint16(v), err
	case tUInt32:
		return uint32(v), err
	}
	return v, err
}

// parseGUID parses the plain text form of a GUID, independently of the code under test.
func parseGUID(s string) (guid.Guid, error) {
	var g guid.Guid
	h := strings.ReplaceAll(s, "-", "")
	if len(h) != 32 {
		return g, fmt.Errorf("not a GUID: %q", s)
	}
	for i := range g {
		v, err := strconv.ParseUint(h[2*i:2*i+2], 16, 8)
		if err != nil {
			return g, err
		}
		g[i] = byte(v)
	}
	return g, nil
}

func formatGUID(g guid.Guid) string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", g[0:4], g[4:6], g[6:8], g[8:10], g[10:16])
}

// sameValue compares two field values.
func sameValue(a, b any) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	case decimal.Decimal:
		y, ok := b.(decimal.Decimal)
		return ok && x.Equal(y)
	case float32:
		y, ok := b.(float32)
		return ok && (x == y || x != x && y != y)
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || x != x && y != y)
	}
	return a == b
}

var edgeTimes = []string{"0001-01-01T00:00:00Z", "1969-12-31T23:59:59.999Z", "1970-01-01T00:00:00Z", "2000-02-29T12:00:00Z", "2024-12-31T23:59:59.9999999Z", "9999-12-31T23:59:59Z", "2021-09-11T14:46:39.3391278Z"}

func genTime(t *rapid.T) string {
	if rapid.IntRange(0, 2).Draw(t, "timekind") == 0 {
		return rapid.SampledFrom(edgeTimes).Draw(t, "time")
	}
	sec := rapid.Int64Range(-2208988800, 4102444800).Draw(t, "sec")
	ns := rapid.SampledFrom([]int64{0, 0, 1000000, 123456700, 500000000, 999999999}).Draw(t, "ns")
	return time.Unix(sec, ns).UTC().Format(time.RFC3339Nano)
}

var wordRunes = rapid.RuneFrom([]rune("aAbBcC zZ019_%*'\"<>&;,=()[]{}-./\\\t\näßΣσé中😀"))

func genText(t *rapid.T) string {
	return rapid.OneOf(
		rapid.SampledFrom([]string{"", "a", "A", "abc", "ABC", "Freq", "x y", "10", "-5", "1.5", "true", "'", "null", "%", "é", "中", "a%b"}),
		rapid.StringOfN(wordRunes, 0, 8, -1),
	).Draw(t, "text")
}

func genGUIDText(t *rapid.T) string {
	if rapid.Bool().Draw(t, "smallguid") {
		return formatGUID(guidOf(uint32(rapid.IntRange(0, 3).Draw(t, "g"))))
	}
	return formatGUID(genGuid(t, "guid"))
}

func genDecimal(t *rapid.T) string {
	if rapid.Bool().Draw(t, "edge") {
		return rapid.SampledFrom([]string{"0", "1", "-1", "0.1", "-0.5", "2.5", "3.5", "99999999999999999999.5", "0.000000000001", "-12345678901234567890", "1000", "1.10"}).Draw(t, "dec")
	}
	return decimal.New(rapid.Int64Range(-1000000000000, 1000000000000).Draw(t, "m"), rapid.Int32Range(-8, 2).Draw(t, "e")).String()
}

func genDouble(t *rapid.T) float64 {
	if rapid.Bool().Draw(t, "edge") {
		return rapid.SampledFrom([]float64{0, 1, -1, 0.5, -2.5, 1e10, -1e-10, 1e300, math.MaxInt32, math.MaxInt64, 3.5, 100}).Draw(t, "dbl")
	}
	return float64(rapid.Int64Range(-1000000, 1000000).Draw(t, "num")) / float64(rapid.SampledFrom([]int64{1, 2, 4, 10, 1000}).Draw(t, "den"))
}

// genCellText draws the canonical text of a value of the type.
func genCellText(t *rapid.T, typ int) string {
	switch typ {
	case tString:
		return genText(t)
	case tBool:
		return strconv.FormatBool(rapid.Bool().Draw(t, "b"))
	case tDateTime:
		return genTime(t)
	case tSingle:
		return strconv.FormatFloat(float64(float32(genDouble(t))), 'g', -1, 32)
	case tDouble:
		return strconv.FormatFloat(genDouble(t), 'g', -1, 64)
	case tDecimal:
		return genDecimal(t)
	case tGuid:
		return genGUIDText(t)
	}
	small := rapid.IntRange(0, 2).Draw(t, "small") > 0
	if typ <= tInt64 {
		bits := []uint{8, 16, 32, 64}[typ-tInt8]
		lo, hi := int64(-1)<<(bits-1), int64(1)<<(bits-1)-1
		if small {
			return strconv.FormatInt(rapid.Int64Range(-4, 12).Draw(t, "i"), 10)
		}
		return strconv.FormatInt(rapid.Int64Range(lo, hi).Draw(t, "i"), 10)
	}
	bits := []uint{8, 16, 32, 64}[typ-tUInt8]
	if small {
		return strconv.FormatUint(rapid.Uint64Range(0, 12).Draw(t, "u"), 10)
	}
	return strconv.FormatUint(rapid.Uint64Range(0, ^uint64(0)>>(64-bits)).Draw(t, "u"), 10)
}

func genCell(t *rapid.T, typ int, nulls int) cell {
	if nulls > 0 && rapid.IntRange(0, nulls).Draw(t, "null") == 0 {
		return cell{Null: true}
	}
	return cell{S: genCellText(t, typ)}
}

// build creates the table through the API.
func (ts tableSpec) build(ds *data.DataSet) (*data.DataTable, error) {
	dt := ds.CreateTable(ts.Name)
	for _, c := range ts.Cols {
		dt.AddColumn(dt.CreateColumn(c.Name, data.DataTypeEnum(c.Type), c.Expr))
	}
	for _, r := range ts.Rows {
		row := dt.CreateRow()
		for i, c := range r {
			if c.Null || ts.Cols[i].Expr != "" {
				continue
			}
			v, err := goValue(ts.Cols[i].Type, c.text())
			if err != nil {
				return nil, vk.Broken("generated value %q: %v", c.S, err)
			}
			if err := row.SetValue(i, v); err != nil {
				return nil, fmt.Errorf("a value of column %s is not accepted: %v", ts.Cols[i].Name, err)
			}
		}
		dt.AddRow(row)
	}
	ds.AddTable(dt)
	return dt, nil
}

// uniqueNames draws n names that differ also without regard to case.
func uniqueNames(t *rapid.T, label string, n int, pool []string) []string {
	seen := map[string]bool{}
	var out []string
	for i := 0; len(out) < n; i++ {
		name := rapid.SampledFrom(pool).Draw(t, label)
		for k := 2; seen[strings.ToUpper(name)]; k++ {
			name = fmt.Sprintf("%s%d", strings.TrimRight(name, "0123456789"), k)
		}
		seen[strings.ToUpper(name)] = true
		out = append(out, name)
	}
	return out
}
