package props

import (
	"fmt"
	"math/big"
	"testing"
	"time"

	"github.com/sttp/goapi/sttp/ticks"
	"github.com/sttp/goapi/sttp/transport"
	"pgregory.net/rapid"
	"verif/harness/vk"
)

type c26Case struct {
	T      int64 // ticks value, 0..max
	Flags  int   // 0 none, 1 leap second, 2 negative leap second, 3 direction bit only
	Sub    int64 // nanoseconds within the tick, 0..99
	Zone   int   // minutes east
	Delta  int64 // ticks to add
	Method int
}

const maxTicks = int64(3155378975999999999)

// calendarTicks computes ticks from calendar fields with plain integers.
func calendarTicks(y, mo, d, h, mi, s int, ns int64) *big.Int {
	leap := func(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }
	days := int64(0)
	p := int64(y - 1)
	days = p*365 + p/4 - p/100 + p/400
	lens := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	for m := 1; m < mo; m++ {
		days += int64(lens[m-1])
		if m == 2 && leap(y) {
			days++
		}
	}
	days += int64(d - 1)
	secs := days*86400 + int64(h)*3600 + int64(mi)*60 + int64(s)
	b := new(big.Int).Mul(big.NewInt(secs), big.NewInt(10000000))
	return b.Add(b, big.NewInt(ns/100))
}

func execC26(c c26Case, o *vk.Obs) error {
	v := ticks.Ticks(c.T)
	flagged := v
	switch c.Flags {
	case 1:
		switch c.Method % 3 {
		case 0:
			flagged = ticks.SetLeapSecond(v)
		case 1:
			flagged.ApplyLeapSecond()
		case 2:
			flagged.SetLeapSecond()
		}
	case 2:
		switch c.Method % 3 {
		case 0:
			flagged = ticks.SetNegativeLeapSecond(v)
		case 1:
			flagged.ApplyNegativeLeapSecond()
		case 2:
			flagged.SetLeapSecond()
			flagged.SetLeapSecondDirection(true)
		}
	case 3:
		flagged.SetLeapSecondDirection(true)
	}
	wantBits := uint64(c.T)
	if c.Flags == 1 || c.Flags == 2 {
		wantBits |= 1 << 63
	}
	if c.Flags >= 2 {
		wantBits |= 1 << 62
	}
	if uint64(flagged) != wantBits {
		return fmt.Errorf("marking %d as leap second kind %d gives %#x, want %#x", c.T, c.Flags, uint64(flagged), wantBits)
	}
	leap, neg := c.Flags == 1 || c.Flags == 2, c.Flags == 2
	if flagged.IsLeapSecond() != leap || ticks.IsLeapSecond(flagged) != leap || flagged.IsNegativeLeapSecond() != neg || ticks.IsNegativeLeapSecond(flagged) != neg {
		return fmt.Errorf("leap second state of %#x is %v %v %v %v", uint64(flagged), flagged.IsLeapSecond(), ticks.IsLeapSecond(flagged), flagged.IsNegativeLeapSecond(), ticks.IsNegativeLeapSecond(flagged))
	}
	if flagged.TimestampValue() != c.T {
		return fmt.Errorf("time value of %#x is %d, want %d", uint64(flagged), flagged.TimestampValue(), c.T)
	}
	cleared := flagged
	cleared.SetLeapSecondDirection(false)
	if cleared.IsNegativeLeapSecond() || cleared.IsLeapSecond() != leap || cleared.TimestampValue() != c.T {
		return fmt.Errorf("clearing the direction of %#x gives %#x", uint64(flagged), uint64(cleared))
	}
	// Calendar
	want := ticksToTime(c.T)
	got := flagged.ToTime()
	if !got.Equal(want) || got.Location() != time.UTC && got.Location().String() != "UTC" {
		return fmt.Errorf("%d converts to %v, want %v", c.T, got, want)
	}
	if alt := ticks.ToTime(flagged); !alt.Equal(got) {
		return fmt.Errorf("the two conversions of %d differ: %v, %v", c.T, got, alt)
	}
	if cal := calendarTicks(got.Year(), int(got.Month()), got.Day(), got.Hour(), got.Minute(), got.Second(), int64(got.Nanosecond())); cal.Cmp(big.NewInt(c.T)) != 0 {
		return fmt.Errorf("%d converts to calendar time %v, which is %v ticks", c.T, got, cal)
	}
	// Back, from any zone, truncating below 100 ns
	in := got.Add(time.Duration(c.Sub)).In(time.FixedZone("z", c.Zone*60))
	if back := ticks.FromTime(in); back != v {
		return fmt.Errorf("%v converts to %d, want %d", in, back, c.T)
	}
	m := transport.Measurement{Timestamp: flagged}
	if !m.DateTime().Equal(want) || m.TimestampValue() != c.T {
		return fmt.Errorf("measurement time %v, %d; want %v, %d", m.DateTime(), m.TimestampValue(), want, c.T)
	}
	if s := flagged.String(); s != want.Format("2006-01-02 15:04:05.999999999") {
		return fmt.Errorf("text of %d is %q", c.T, s)
	}
	if s := flagged.ShortTime(); s != want.Format("15:04:05.999") {
		return fmt.Errorf("short text of %d is %q", c.T, s)
	}
	// Unix time, where nanoseconds can express it
	const epoch = int64(621355968000000000)
	if d := c.T - epoch; d >= 0 && d <= 9223372036854775807/100 {
		o.Label("unix")
		if ns := flagged.ToUnixNano(); ns != uint64(d)*100 {
			return fmt.Errorf("Unix time of %d is %d, want %d", c.T, ns, d*100)
		}
		if back := ticks.FromUnixNano(uint64(d)*100 + uint64(c.Sub)); back != v {
			return fmt.Errorf("Unix time %d converts to %d, want %d", d*100+c.Sub, back, c.T)
		}
	}
	// Arithmetic in ticks equals arithmetic in time
	if sum := c.T + c.Delta; sum >= 0 && sum <= maxTicks {
		a, b := ticks.Ticks(sum).ToTime(), got.Add(time.Duration(c.Delta)*100)
		if !a.Equal(b) {
			return fmt.Errorf("%d + %d ticks is %v, want %v", c.T, c.Delta, a, b)
		}
	}
	if c.T < epoch || c.Flags > 0 {
		o.NonTrivial()
	}
	return nil
}

func TestC26(t *testing.T) {
	units := []struct {
		name string
		got  ticks.Ticks
		want int64
	}{{"microsecond", ticks.PerMicrosecond, 10}, {"millisecond", ticks.PerMillisecond, 10000}, {"second", ticks.PerSecond, 10000000}, {"minute", ticks.PerMinute, 600000000}, {"hour", ticks.PerHour, 36000000000}, {"day", ticks.PerDay, 864000000000}}
	vk.Run(t, vk.Spec[c26Case]{
		ID: "C26", Name: "ticks", Rule: "tick values over years 1-9999, leap markings, zones; non-trivial: before 1970 or marked",
		Quick: 50000, Deep: 3000000,
		Gen: func(t *rapid.T) c26Case {
			c := c26Case{Flags: rapid.IntRange(0, 3).Draw(t, "flags"), Sub: rapid.SampledFrom([]int64{0, 0, 1, 50, 99}).Draw(t, "sub"), Zone: rapid.SampledFrom([]int{0, 60, -300, 330, 845, -720}).Draw(t, "zone"),
				Method: rapid.IntRange(0, 2).Draw(t, "method"), Delta: rapid.OneOf(rapid.Int64Range(-1000000000, 1000000000), rapid.SampledFrom([]int64{10, 10000, 10000000, 600000000, 36000000000, 864000000000})).Draw(t, "delta")}
			switch rapid.IntRange(0, 3).Draw(t, "kind") {
			case 0:
				c.T = rapid.Int64Range(0, maxTicks).Draw(t, "t")
			case 1:
				base := rapid.SampledFrom([]int64{0, 621355968000000000, maxTicks, 713589408368547758, 3155378976000000000, 630822816000000000, 634444992000000000}).Draw(t, "base")
				c.T = base + rapid.Int64Range(-20000000, 20000000).Draw(t, "off")
			case 2:
				// Midnights and year ends
				y := rapid.IntRange(1, 9999).Draw(t, "year")
				mo := rapid.SampledFrom([]time.Month{1, 2, 3, 12}).Draw(t, "month")
				d := rapid.SampledFrom([]int{1, 28, 29, 31}).Draw(t, "day")
				at := time.Date(y, mo, d, 0, 0, 0, 0, time.UTC)
				c.T = (at.Unix()+62135596800)*10000000 + rapid.Int64Range(-1, 1).Draw(t, "around")
			case 3:
				c.T = rapid.Int64Range(0, maxTicks/10000000).Draw(t, "sec") * 10000000
			}
			c.T = min(max(c.T, 0), maxTicks)
			return c
		},
		Exec: func(c c26Case, o *vk.Obs) error {
			for _, u := range units {
				if int64(u.got) != u.want {
					return fmt.Errorf("ticks per %s is %d", u.name, u.got)
				}
			}
			return execC26(c, o)
		},
	})
}
