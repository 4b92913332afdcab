package props

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/sttp/goapi/sttp/format"
	"github.com/sttp/goapi/sttp/transport"
	"pgregory.net/rapid"
	"verif/harness/vk"
)

type c30Case struct {
	Source  string
	Kind    int // 0..10, position in c30Kinds
	Pos     int // -1 for none
	Lower   bool
	Text    string // arbitrary reference text
	Flags   uint32
	Code    byte
	Phasor  string
	Int     int64
	Uint    uint64
	Float   uint64 // bits
	Prec    int
	Decimal byte
	Group   byte
}

// c30Kinds are the documented two-letter acronyms, in the order of the enumeration, with name and type acronyms.
var c30Kinds = []struct{ acronym, name, typ, typV string }{
	{"PA", "Angle", "IPHA", "VPHA"}, {"PM", "Magnitude", "IPHM", "VPHM"}, {"FQ", "Frequency", "FREQ", "FREQ"}, {"DF", "DfDt", "DFDT", "DFDT"}, {"SF", "Status", "FLAG", "FLAG"},
	{"DV", "Digital", "DIGI", "DIGI"}, {"AV", "Analog", "ALOG", "ALOG"}, {"CV", "Calculation", "CALC", "CALC"}, {"ST", "Statistic", "STAT", "STAT"}, {"AL", "Alarm", "ALRM", "ALRM"}, {"QF", "Quality", "QUAL", "QUAL"},
}

// c30Flags are the state flags from bit 0 up.
var c30Flags = strings.Fields(`BadData SuspectData OverRangeError UnderRangeError AlarmHigh AlarmLow WarningHigh WarningLow FlatlineAlarm ComparisonAlarm ROCAlarm ReceivedAsBad CalculatedValue CalculationError
	CalculationWarning ReservedQualityFlag BadTime SuspectTime LateTimeAlarm FutureTimeAlarm UpSampled DownSampled DiscardedValue ReservedTimeFlag UserDefinedFlag1 UserDefinedFlag2 UserDefinedFlag3
	UserDefinedFlag4 UserDefinedFlag5 SystemError SystemWarning MeasurementError`)

// enumName finds the name of a code in an enumeration declared as a struct of named values.
func enumName(enum any, code uint64) string {
	v := reflect.ValueOf(enum)
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Uint() == code {
			return v.Type().Field(i).Name
		}
	}
	return ""
}

// ungroup removes the group separators and checks that they stand after every third digit.
func ungroup(s string, group byte) (string, error) {
	sign := ""
	if strings.HasPrefix(s, "-") {
		sign, s = "-", s[1:]
	}
	parts := strings.Split(s, string([]byte{group}))
	for i, p := range parts {
		if len(p) > 3 || len(p) == 0 || i > 0 && len(p) != 3 || strings.Trim(p, "0123456789") != "" {
			return "", fmt.Errorf("%q is not grouped by %q", sign+s, group)
		}
	}
	return sign + strings.Join(parts, ""), nil
}

func execC30(c c30Case, o *vk.Obs) error {
	// Signal references
	k := c30Kinds[c.Kind]
	ac := k.acronym
	if c.Lower {
		ac = strings.ToLower(ac)
	}
	ref := c.Source + "-" + ac
	pos := 0
	if c.Pos >= 0 {
		ref += strconv.Itoa(c.Pos)
		pos = c.Pos
	}
	mm := transport.MeasurementMetadata{SignalReference: ref}
	source, kind, at := mm.ParseSignalReference()
	if source != c.Source || int(kind) != c.Kind || at != pos {
		return fmt.Errorf("%q parsed as source %q, kind %v, position %d", ref, source, kind, at)
	}
	if kind.String() != k.name || kind.Acronym() != k.acronym || transport.ParseSignalKindAcronym(ac) != kind {
		return fmt.Errorf("kind %d: name %q, acronym %q, parsed back %v", c.Kind, kind, kind.Acronym(), transport.ParseSignalKindAcronym(ac))
	}
	for _, r := range c.Phasor {
		want := k.typ
		if r == 'V' || r == 'v' {
			want = k.typV
		}
		if got := kind.SignalTypeAcronym(r); got != want {
			return fmt.Errorf("signal type of %v with phasor type %q is %q, want %q", kind, r, got, want)
		}
	}
	// Arbitrary text
	mm.SignalReference = c.Text
	source, kind, at = mm.ParseSignalReference()
	i := strings.LastIndex(c.Text, "-")
	known := -1
	if i >= 0 && len(c.Text) >= i+3 {
		for n, k := range c30Kinds {
			if strings.EqualFold(c.Text[i+1:i+3], k.acronym) {
				known = n
			}
		}
	}
	if known < 0 {
		o.Label("unknown reference")
		if kind != transport.SignalKind.Unknown {
			return fmt.Errorf("%q, which is no signal reference, has kind %v", c.Text, kind)
		}
	} else {
		if int(kind) != known || source != c.Text[:i] {
			return fmt.Errorf("%q parsed as source %q, kind %v", c.Text, source, kind)
		}
	}
	// Flags
	name := transport.StateFlagsEnum(c.Flags).String()
	var want []string
	for b, f := range c30Flags {
		if c.Flags>>b&1 != 0 {
			want = append(want, f)
		}
	}
	if c.Flags == 0 {
		want = []string{"Normal"}
	}
	if name != strings.Join(want, ",") {
		return fmt.Errorf("flags %#x render as %q", c.Flags, name)
	}
	// Codes
	if want := enumName(transport.ServerCommand, uint64(c.Code)); want != "" {
		if got := transport.ServerCommandEnum(c.Code).String(); got != want {
			return fmt.Errorf("command %#x renders as %q, is %s", c.Code, got, want)
		}
	} else if got := transport.ServerCommandEnum(c.Code).String(); enumHas(transport.ServerCommand, got) || got == "" {
		return fmt.Errorf("undefined command %#x renders as %q", c.Code, got)
	}
	if want := enumName(transport.ServerResponse, uint64(c.Code)); want != "" {
		if got := transport.ServerResponseEnum(c.Code).String(); got != want {
			return fmt.Errorf("response %#x renders as %q, is %s", c.Code, got, want)
		}
	} else if got := transport.ServerResponseEnum(c.Code).String(); enumHas(transport.ServerResponse, got) || got == "" {
		return fmt.Errorf("undefined response %#x renders as %q", c.Code, got)
	}
	// Integers
	for _, f := range []struct {
		got, want string
		group     byte
	}{
		{format.Int64(c.Int), strconv.FormatInt(c.Int, 10), ','}, {format.Int64With(c.Int, c.Group), strconv.FormatInt(c.Int, 10), c.Group},
		{format.Int(int(c.Int)), strconv.FormatInt(c.Int, 10), ','}, {format.IntWith(int(c.Int), c.Group), strconv.FormatInt(c.Int, 10), c.Group},
		{format.UInt64(c.Uint), strconv.FormatUint(c.Uint, 10), ','}, {format.UInt64With(c.Uint, c.Group), strconv.FormatUint(c.Uint, 10), c.Group},
		{format.UInt(uint(c.Uint)), strconv.FormatUint(c.Uint, 10), ','}, {format.UIntWith(uint(c.Uint), c.Group), strconv.FormatUint(c.Uint, 10), c.Group},
	} {
		if got, err := ungroup(f.got, f.group); err != nil || got != f.want {
			return fmt.Errorf("%s formatted with %q as %q: %v", f.want, f.group, f.got, err)
		}
	}
	// Floats
	v := math.Float64frombits(c.Float)
	for _, f := range []struct {
		got        string
		dec, group byte
	}{{format.Float(v, c.Prec), '.', ','}, {format.FloatWith(v, c.Prec, c.Decimal, c.Group), c.Decimal, c.Group}} {
		if math.IsNaN(v) || math.IsInf(v, 0) {
			o.Label("not a number")
			if want := strconv.FormatFloat(v, 'f', -1, 64); f.got != want {
				return fmt.Errorf("%v formatted as %q", v, f.got)
			}
			continue
		}
		whole, frac, has := strings.Cut(f.got, string([]byte{f.dec}))
		if c.Prec < 0 { // as many digits as needed
			digits, err := ungroup(whole, f.group)
			if has {
				digits += "." + frac
			}
			if got, e := strconv.ParseFloat(digits, 64); err != nil || e != nil || got != v {
				return fmt.Errorf("%v formatted as %q: %v %v", v, f.got, err, e)
			}
			continue
		}
		if has != (c.Prec > 0) || len(frac) != c.Prec {
			return fmt.Errorf("%v with precision %d formatted as %q", v, c.Prec, f.got)
		}
		digits, err := ungroup(whole, f.group)
		if err != nil {
			return fmt.Errorf("%v formatted as %q: %v", v, f.got, err)
		}
		if has {
			digits += "." + frac
		}
		// The text denotes the exact value to within half of its last place
		r, ok := new(big.Rat).SetString(digits)
		if !ok {
			return fmt.Errorf("%v formatted as %q, which is no number", v, f.got)
		}
		exact := new(big.Rat).SetFloat64(v)
		diff := new(big.Rat).Sub(r, exact)
		diff.Abs(diff)
		half := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Mul(big.NewInt(2), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(c.Prec)), nil)))
		if diff.Cmp(half) > 0 {
			return fmt.Errorf("%v with precision %d formatted as %q", v, c.Prec, f.got)
		}
		if v > 0 && strings.HasPrefix(digits, "-") || v < 0 && r.Sign() > 0 {
			return fmt.Errorf("%v formatted as %q", v, f.got)
		}
	}
	if math.Abs(v) >= 1000 && c.Prec > 0 && c.Flags&(c.Flags-1) != 0 {
		o.NonTrivial()
	}
	return nil
}

func enumHas(enum any, name string) bool {
	return reflect.ValueOf(enum).FieldByName(name).IsValid()
}

func TestC30(t *testing.T) {
	vk.Run(t, vk.Spec[c30Case]{
		ID: "C30", Name: "render", Rule: "references, flags, codes and numbers at once; non-trivial: several flags and a float that needs groups and decimals",
		Quick: 40000, Deep: 2000000,
		Gen: func(t *rapid.T) c30Case {
			refRunes := rapid.RuneFrom([]rune("ABpafqPMdfSV-!: 0189é_"))
			c := c30Case{Source: rapid.StringOfN(refRunes, 0, 10, -1).Draw(t, "source"), Kind: rapid.IntRange(0, 10).Draw(t, "kind"), Pos: rapid.OneOf(rapid.IntRange(-1, 20), rapid.IntRange(0, 1<<31-1)).Draw(t, "pos"),
				Lower: rapid.IntRange(0, 3).Draw(t, "lower") == 0, Text: rapid.OneOf(rapid.StringOfN(refRunes, 0, 8, -1), rapid.SampledFrom([]string{"", "-", "A-", "A-P", "A-PA", "A-XX1", "-PA1", "A-PAx", "A--", "PA1", "é-é"})).Draw(t, "text"),
				Flags: rapid.Uint32().Draw(t, "flags"), Code: rapid.Byte().Draw(t, "code"), Phasor: rapid.StringOfN(rapid.RuneFrom([]rune("VvIi?é")), 0, 3, -1).Draw(t, "phasor"),
				Int:  rapid.OneOf(rapid.Int64(), rapid.Int64Range(-1100, 1100), rapid.SampledFrom([]int64{math.MinInt64, math.MaxInt64, 0, 999, 1000, -999, -1000, 999999, 1000000})).Draw(t, "int"),
				Uint: rapid.OneOf(rapid.Uint64(), rapid.Uint64Range(0, 1100)).Draw(t, "uint"), Prec: rapid.IntRange(-1, 9).Draw(t, "prec"),
				Decimal: rapid.SampledFrom([]byte(".,;")).Draw(t, "decimal")}
			c.Group = rapid.SampledFrom([]byte(",. '_")).Filter(func(b byte) bool { return b != c.Decimal }).Draw(t, "group")
			v := rapid.OneOf(rapid.Float64Range(-1e7, 1e7), rapid.Float64(), rapid.Float64Range(-2, 2), rapid.SampledFrom([]float64{0, math.Copysign(0, -1), 999.9995, -999.9999, 1000, 0.5, -0.4, 1e15, -1e21, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64})).Draw(t, "float")
			c.Float = math.Float64bits(v)
			return c
		},
		Exec: execC30,
	})
	vk.Run(t, vk.Spec[c30Code]{
		ID: "C30", Name: "codes", Rule: "every enumeration of the protocol with any code; non-trivial: a code that has a name",
		Quick: 5000, Deep: 100000, Exec: execC30Code,
		Gen: func(t *rapid.T) c30Code {
			c := c30Code{Enum: rapid.IntRange(0, len(c30Enums)-1).Draw(t, "enum"), Code: rapid.IntRange(-3, 300).Draw(t, "code")}
			if v := reflect.ValueOf(c30Enums[c.Enum].value); rapid.Bool().Draw(t, "named") {
				c.Code = int(enumValue(v.Field(rapid.IntRange(0, v.NumField()-1).Draw(t, "field"))))
			}
			return c
		},
	})
}

// c30Code is a code of an enumeration.
type c30Code struct{ Enum, Code int }

// c30Enums are the codes of the protocol and their names.
var c30Enums = []struct {
	value any
	names map[string]int64
}{
	{transport.StateFlags, c30Values("Normal=0 " + numbered(c30Flags, func(i int) int64 { return 1 << i }))},
	{transport.DataPacketFlags, c30Values("NoFlags=0 Compact=2 CipherIndex=4 Compressed=8 CacheIndex=16")},
	{transport.ServerCommand, c30Values(numbered(strings.Fields(`Connect MetadataRefresh Subscribe Unsubscribe RotateCipherKeys UpdateProcessingInterval DefineOperationalModes ConfirmNotification ConfirmBufferBlock
		ConfirmUpdateBaseTimes ConfirmUpdateSignalIndexCache ConfirmUpdateCipherKeys GetPrimaryMetadataSchema GetSignalSelectionSchema`), func(i int) int64 { return int64(i) }) + numbered(users("UserCommand"), func(i int) int64 { return 0xD0 + int64(i) }))},
	{transport.ServerResponse, c30Values(numbered(strings.Fields(`Succeeded Failed DataPacket UpdateSignalIndexCache UpdateBaseTimes UpdateCipherKeys DataStartTime ProcessingComplete BufferBlock Notify ConfigurationChanged`),
		func(i int) int64 { return 0x80 + int64(i) }) + numbered(users("UserResponse"), func(i int) int64 { return 0xE0 + int64(i) }) + "NoOP=255")},
	{transport.OperationalModes, c30Values("NoFlags=0 VersionMask=0xff EncodingMask=0x300 ImplementationSpecificExtensionMask=0xff0000 ReceiveExternalMetadata=0x2000000 ReceiveInternalMetadata=0x4000000 " +
		"CompressPayloadData=0x20000000 CompressSignalIndexCache=0x40000000 CompressMetadata=0x80000000")},
	{transport.OperationalEncoding, c30Values("UTF16LE=0 UTF16BE=0x100 UTF8=0x200")},
	{transport.CompressionModes, c30Values("NoFlags=0 GZip=0x20 TSSC=0x40")},
	{transport.SecurityMode, c30Values("Off=0 TLS=1")},
	{transport.SignalKind, c30Values(numbered(strings.Fields("Angle Magnitude Frequency DfDt Status Digital Analog Calculation Statistic Alarm Quality Unknown"), func(i int) int64 { return int64(i) }))},
	{transport.ConnectStatus, c30Values("Success=1 Failed=0 Canceled=-1")},
}

func c30Values(s string) map[string]int64 {
	m := map[string]int64{}
	for _, f := range strings.Fields(s) {
		name, v, _ := strings.Cut(f, "=")
		m[name], _ = strconv.ParseInt(v, 0, 64)
	}
	return m
}

func numbered(names []string, value func(int) int64) (s string) {
	for i, n := range names {
		s += fmt.Sprintf("%s=%d ", n, value(i))
	}
	return
}

func users(name string) (list []string) {
	for i := 0; i < 16; i++ {
		list = append(list, fmt.Sprintf("%s%02d", name, i))
	}
	return
}

func enumValue(v reflect.Value) int64 {
	if v.CanInt() {
		return v.Int()
	}
	return int64(v.Uint())
}

func execC30Code(c c30Code, o *vk.Obs) error {
	e := c30Enums[c.Enum]
	v := reflect.ValueOf(e.value)
	kind := v.Type().Field(0).Type
	for name, want := range e.names {
		f := v.FieldByName(name)
		if !f.IsValid() {
			return fmt.Errorf("%v has no %s", kind, name)
		}
		if enumValue(f) != want {
			return fmt.Errorf("%v %s is %#x, the protocol says %#x", kind, name, enumValue(f), want)
		}
		if int64(c.Code) == want {
			o.NonTrivial()
			o.Label("%v %s", kind, name)
		}
	}
	// Kinds that are not known
	if c.Code > 10 && c.Code < 1<<16 {
		k := transport.SignalKindEnum(c.Code)
		name := fmt.Sprintf("%#x", c.Code)
		if c.Code == 11 {
			name = "Unknown"
		}
		if k.String() != name || k.Acronym() != "??" {
			return fmt.Errorf("signal kind %d renders as %q, acronym %q", c.Code, k.String(), k.Acronym())
		}
		if k.SignalTypeAcronym('V') != "NULL" || k.SignalTypeAcronym('I') != "NULL" {
			return fmt.Errorf("signal kind %d has type acronym %q, %q", c.Code, k.SignalTypeAcronym('V'), k.SignalTypeAcronym('I'))
		}
	}
	return nil
}
