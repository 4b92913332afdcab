package props

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"github.com/sttp/goapi/sttp/guid"
	"pgregory.net/rapid"
	"verif/harness/pub"
	"verif/harness/vk"
)

type c25Case struct {
	A, B, C []byte // 16 bytes each
	Extra   []byte // follows the bytes of A
	Short   int    // length of a too short slice
	Style   int
	Bad     string // malformed text
}

func cmpSign(a, b []byte) int { return bytes.Compare(a, b) }

func execC25(c c25Case, o *vk.Obs) error {
	a, b, d := guid.Guid(c.A), guid.Guid(c.B), guid.Guid(c.C)
	plain := formatGUID(a)
	if s := a.String(); s != "{"+plain+"}" {
		return fmt.Errorf("text of %x is %q", c.A, s)
	}
	text := plain
	if c.Style%3 == 1 {
		text = strings.ToUpper(text)
	} else if c.Style%3 == 2 {
		// Mixed case
		m := []byte(text)
		for i := range m {
			if i%2 == 0 {
				m[i] = strings.ToUpper(string(m[i]))[0]
			}
		}
		text = string(m)
	}
	if c.Style/3%2 == 1 {
		text = "{" + text + "}"
	}
	if g, err := guid.Parse(text); err != nil || g != a {
		return fmt.Errorf("%q parsed as %v, %v", text, g, err)
	}
	if g, err := guid.Parse(a.String()); err != nil || g != a {
		return fmt.Errorf("text %q of a GUID parsed as %v, %v", a.String(), g, err)
	}
	if g, err := guid.Parse(c.Bad); err == nil {
		return fmt.Errorf("malformed text %q parsed as %v", c.Bad, g)
	}
	for _, swap := range []bool{false, true} {
		want := [16]byte(a)
		if swap {
			want = pub.SwapGUID(want)
		}
		got := a.ToBytes(swap)
		if !bytes.Equal(got, want[:]) {
			return fmt.Errorf("bytes of %v (swapped %v) are %x, want %x", a, swap, got, want)
		}
		// Neither result nor argument may alias the other
		buf := append(append([]byte(nil), got...), c.Extra...)
		keep := append([]byte(nil), buf...)
		g, err := guid.FromBytes(buf, swap)
		if err != nil || g != a {
			return fmt.Errorf("%x (swapped %v) read as %v, %v; want %v", buf, swap, g, err, a)
		}
		if !bytes.Equal(buf, keep) {
			return fmt.Errorf("reading a GUID changed the bytes %x to %x", keep, buf)
		}
		for i := range buf {
			buf[i] ^= 0xFF
		}
		for i := range got {
			got[i] ^= 0xFF
		}
		if g != a || a != guid.Guid(c.A) {
			return fmt.Errorf("a GUID shares memory with its bytes")
		}
		if _, err := guid.FromBytes(c.A[:c.Short], swap); err == nil {
			return fmt.Errorf("%d bytes accepted as a GUID", c.Short)
		}
	}
	w1, w2, w3, w4 := a.Components()
	if rebuilt := fmt.Sprintf("%08x-%04x-%04x-%x-%x", w1, w2, w3, w4[:2], w4[2:]); rebuilt != plain {
		return fmt.Errorf("components of %s are %s", plain, rebuilt)
	}
	if a.IsZero() != (plain == "00000000-0000-0000-0000-000000000000") {
		return fmt.Errorf("IsZero of %s is %v", plain, a.IsZero())
	}
	// Order: that of the text, hence of the bytes
	pairs := [][2]guid.Guid{{a, b}, {b, a}, {a, d}, {b, d}, {a, a}}
	for _, p := range pairs {
		want := cmpSign(p[0][:], p[1][:])
		if got := guid.Compare(p[0], p[1]); got != want {
			return fmt.Errorf("Compare(%v, %v) is %d, want %d", p[0], p[1], got, want)
		}
		if got := p[0].Compare(p[1]); got != want {
			return fmt.Errorf("%v.Compare(%v) is %d, want %d", p[0], p[1], got, want)
		}
		if guid.Equal(p[0], p[1]) != (want == 0) || p[0].Equal(p[1]) != (want == 0) {
			return fmt.Errorf("equality of %v and %v disagrees with their order", p[0], p[1])
		}
	}
	if a != b {
		o.NonTrivial()
	}
	return nil
}

func TestC25(t *testing.T) {
	hexes := rapid.RuneFrom([]rune("0123456789abcdefABCDEF"))
	vk.Run(t, vk.Spec[c25Case]{
		ID: "C25", Name: "guid", Rule: "GUIDs, relatives differing in one byte, and malformed texts; non-trivial: two different GUIDs",
		Quick: 30000, Deep: 1500000,
		Gen: func(t *rapid.T) c25Case {
			c := c25Case{A: rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "a"), Short: rapid.IntRange(0, 15).Draw(t, "short"), Style: rapid.IntRange(0, 5).Draw(t, "style"), Extra: rapid.SliceOfN(rapid.Byte(), 0, 3).Draw(t, "extra")}
			near := func(label string) []byte {
				b := append([]byte(nil), c.A...)
				for i, n := 0, rapid.IntRange(0, 2).Draw(t, label+"n"); i < n; i++ {
					b[rapid.IntRange(0, 15).Draw(t, label+"at")] = rapid.SampledFrom([]byte{0, 1, 0x7F, 0x80, 0xFF}).Draw(t, label+"v")
				}
				return b
			}
			c.B, c.C = near("b"), near("c")
			if rapid.IntRange(0, 9).Draw(t, "zero") == 0 {
				c.A = make([]byte, 16)
			}
			// Malformed: wrong length, or a character no form contains
			plain := formatGUID(guid.Guid(c.A))
			switch rapid.IntRange(0, 5).Draw(t, "bad") {
			case 0:
				c.Bad = plain[:rapid.IntRange(0, 31).Draw(t, "cut")]
			case 1:
				b := []byte(plain)
				i := rapid.IntRange(0, 35).Draw(t, "at")
				b[i] = rapid.SampledFrom([]byte{'g', 'z', ' ', '{', 'x', '/', ':', '@', 'G'}).Draw(t, "char")
				c.Bad = string(b)
			case 2:
				c.Bad = plain + rapid.StringOfN(hexes, 3, 40, -1).Draw(t, "tail")
				if len(c.Bad) == 41 || len(c.Bad) == 45 || len(c.Bad) == 38 {
					c.Bad += "0000"
				}
			case 3:
				c.Bad = rapid.StringOfN(rapid.RuneFrom([]rune("äb-{}0")), 0, 20, 30).Draw(t, "text")
			case 4:
				// A separator in the wrong place
				b := []byte(plain)
				i := rapid.SampledFrom([]int{8, 13, 18, 23}).Draw(t, "sep")
				j := rapid.SampledFrom([]int{7, 9, 12, 14, 1, 30}).Draw(t, "with")
				b[i], b[j] = b[j], b[i]
				if bytes.Equal(b, []byte(plain)) || b[i] == '-' {
					b = b[:20]
				}
				c.Bad = string(b)
			case 5:
				// Enclosed in something other than a pair of braces
				pair := rapid.SampledFrom([]string{"{{", "}}", "}{", "()", "[]", "xx", "00", "  ", "{)", "(}", "\"\""}).Draw(t, "pair")
				c.Bad = pair[:1] + plain + pair[1:]
			}
			return c
		},
		Exec: execC25,
	})
}
