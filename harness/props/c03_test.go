package props

import (
	"fmt"
	"math"
	"strings"
	"testing"

	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/transport"
	"pgregory.net/rapid"
	"verif/harness/pub"
	"verif/harness/vk"
)

type cacheRec struct {
	Index  int32
	ID     guid.Guid
	Source string
	Num    uint64
}

type cacheUpdate struct {
	Slot  int
	SubID guid.Guid
	Recs  []cacheRec
	Extra int // trailing bytes (unauthorised signal list) after the records
	Many  int // number of further records
	Long  int // length of the source of the first record
}

// records are those of the update and the further ones.
func (u cacheUpdate) records() []cacheRec {
	if u.Many == 0 && u.Long == 0 {
		return u.Recs
	}
	recs := append([]cacheRec(nil), u.Recs...)
	used := map[int32]bool{-1: true}
	for i := range recs {
		used[recs[i].Index] = true
	}
	for i := 0; i < u.Many; i++ {
		if ix := int32(i * 3); !used[ix] {
			recs = append(recs, cacheRec{Index: ix, ID: guidOf(uint32(1000000 + i)), Source: "S", Num: uint64(i)})
		}
	}
	if u.Long > 0 && len(recs) > 0 {
		recs[0].Source = strings.Repeat("0123456789", u.Long/10)
	}
	return recs
}

type c03Case struct {
	Version  byte
	Compress bool
	Swap     bool
	Updates  []cacheUpdate
	Chunks   []int
}

func genCacheRecs(t *rapid.T, max int) []cacheRec {
	idx := rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) int32 { return genInt32ID(t, "ix") }), 0, max, rapid.ID[int32]).Draw(t, "idx")
	// -1 is what an unknown signal reports, so a publisher does not use it as an index.
	var out []cacheRec
	seen := map[guid.Guid]bool{}
	pool := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) guid.Guid { return genGuid(t, "g") }), 1, 4).Draw(t, "pool")
	for i, ix := range idx {
		if ix == -1 {
			continue
		}
		var g guid.Guid
		switch rapid.IntRange(0, 3).Draw(t, "gk") {
		case 0:
			g = rapid.SampledFrom(pool).Draw(t, "gpool")
		case 1:
			g = genGuid(t, "g")
		default:
			g = guidOf(uint32(i))
		}
		if seen[g] || g.IsZero() {
			continue
		}
		seen[g] = true
		out = append(out, cacheRec{Index: ix, ID: g,
			Source: rapid.OneOf(rapid.SampledFrom([]string{"", "PPA", "STAT", "Ünï:код", "_x"}), rapid.StringN(0, 30, -1)).Draw(t, "source"),
			Num:    rapid.OneOf(rapid.Uint64Range(0, 5000), rapid.Uint64()).Draw(t, "num")})
	}
	return out
}

func checkCache(got *transport.SignalIndexCache, recs []cacheRec) error {
	if got == nil {
		return fmt.Errorf("no signal index cache")
	}
	if int(got.Count()) != len(recs) {
		return fmt.Errorf("cache has %d records, %d were sent", got.Count(), len(recs))
	}
	ids := got.SignalIDs()
	if len(ids) != len(recs) {
		return fmt.Errorf("cache lists %d signal IDs, %d were sent", len(ids), len(recs))
	}
	byIx, byID := map[int32]bool{}, map[guid.Guid]bool{}
	for _, r := range recs {
		byIx[r.Index], byID[r.ID] = true, true
		if !got.Contains(r.Index) {
			return fmt.Errorf("index %d missing", r.Index)
		}
		id, src, num, ok := got.Record(r.Index)
		if !ok || id != r.ID || src != r.Source || num != r.Num {
			return fmt.Errorf("record %d: got %v %q %d %v want %v %q %d", r.Index, id, src, num, ok, r.ID, r.Source, r.Num)
		}
		if got.SignalID(r.Index) != r.ID || got.Source(r.Index) != r.Source || got.ID(r.Index) != r.Num {
			return fmt.Errorf("single-field lookups of index %d disagree with the record", r.Index)
		}
		if ix := got.SignalIndex(r.ID); ix != r.Index {
			return fmt.Errorf("reverse lookup of %v: got %d want %d", r.ID, ix, r.Index)
		}
		cm := transport.NewCompactMeasurement(got, false, false, &[2]int64{})
		if cm.SetRuntimeID(r.Index); cm.SignalID != r.ID || cm.GetRuntimeID() != r.Index {
			return fmt.Errorf("measurement of index %d has signal %v and index %d, want %v", r.Index, cm.SignalID, cm.GetRuntimeID(), r.ID)
		}
		if _, ok := ids[r.ID]; !ok {
			return fmt.Errorf("signal ID set misses %v", r.ID)
		}
	}
	for _, r := range recs {
		for _, d := range []int32{r.Index + 1, r.Index - 1, ^r.Index} {
			if byIx[d] {
				continue
			}
			if _, _, _, ok := got.Record(d); ok || got.Contains(d) || !got.SignalID(d).IsZero() || got.Source(d) != "" || got.ID(d) != math.MaxUint64 {
				return fmt.Errorf("index %d was never sent but is present", d)
			}
		}
		g := r.ID
		g[15] ^= 0x55
		if !byID[g] && got.SignalIndex(g) != -1 {
			return fmt.Errorf("signal %v was never sent but has index %d", g, got.SignalIndex(g))
		}
	}
	return nil
}

func execC03(c c03Case, o *vk.Obs) error {
	ds := transport.NewDataSubscriber()
	ds.Version = c.Version
	ds.CompressSignalIndexCache = c.Compress
	ds.SwapGuidEndianness = c.Swap
	ds.Subscription().IncludeTime = false
	s, err := dialSess(o, ds, false)
	if err != nil {
		return err
	}
	defer s.closeLater()
	s.c.SetChunks(c.Chunks)
	var slots [2][]cacheRec
	var known [2]bool
	meta := map[guid.Guid]cacheRec{}
	for i, u := range c.Updates {
		u.Recs = u.records()
		slot := u.Slot
		if c.Version == 1 {
			slot = 0
		}
		var recs []pub.Record
		for _, r := range u.Recs {
			recs = append(recs, pub.Record{Index: r.Index, ID: r.ID, Source: r.Source, Num: r.Num})
		}
		body := pub.CacheBody(u.SubID, recs, c.Swap)
		for k := 0; k < u.Extra; k++ {
			body = append(body, byte(k+1))
		}
		if err := s.c.Send(pub.RespCache, pub.CmdSubscribe, pub.CacheUpdate(c.Version, slot, body, c.Compress)); err != nil {
			return errClosed
		}
		if err := s.barrier(); err != nil {
			return fmt.Errorf("update %d: %w", i, err)
		}
		slots[slot], known[slot] = u.Recs, true
		active := ds.ActiveSignalIndexCache()
		if err := checkCache(active, u.Recs); err != nil {
			return fmt.Errorf("update %d: %w", i, err)
		}
		if ds.SubscriberID() != u.SubID {
			return fmt.Errorf("update %d: subscriber ID %v, sent %v", i, ds.SubscriberID(), u.SubID)
		}
		var cb []*transport.SignalIndexCache
		if !until(o.Wait(), func() bool {
			s.rec.with(func() { cb = append([]*transport.SignalIndexCache(nil), s.rec.caches...) })
			return len(cb) > i
		}) {
			return vk.Stuck("subscription-updated callback %d not called", i)
		}
		if len(cb) != i+1 {
			return fmt.Errorf("update %d: subscription-updated callback called %d times", i, len(cb))
		}
		if err := checkCache(cb[i], u.Recs); err != nil {
			return fmt.Errorf("update %d: cache passed to the callback: %w", i, err)
		}
		if c.Version > 1 {
			// The confirmation precedes the barrier's on the same connection.
			if n := pub.Count(s.c.Frames(), pub.CmdConfirmCache); n != i+1 {
				return fmt.Errorf("update %d: %d confirmations sent", i, n)
			}
		} else if n := pub.Count(s.c.Frames(), pub.CmdConfirmCache); n != 0 {
			return fmt.Errorf("update %d: version 1 publisher got %d confirmations", i, n)
		}
		for _, r := range u.Recs {
			if old, ok := meta[r.ID]; !ok || old.Source == "" {
				meta[r.ID] = r
			}
			if m := ds.LookupMetadata(r.ID); m.SignalID != r.ID || m.Source != meta[r.ID].Source || (m.Source != "" && m.ID != meta[r.ID].Num) {
				return fmt.Errorf("update %d: metadata of %v is %q:%d, want %q:%d", i, r.ID, m.Source, m.ID, meta[r.ID].Source, meta[r.ID].Num)
			}
		}
		// Both slots still translate data packets that name them.
		for sl := 0; sl < 2; sl++ {
			if !known[sl] || len(slots[sl]) == 0 {
				continue
			}
			var body []byte
			var want []gotMeas
			for k, r := range slots[sl] {
				body, _ = encodeCompact(body, compactRec{Index: r.Index, Value: uint32(k)}, false, false, [2]int64{})
				want = append(want, wantMeas(r.ID, uint32(k), 0, 0))
			}
			fl := byte(pub.FlagCompact)
			if sl == 1 {
				fl |= pub.FlagCacheIndex
			}
			s.rec.with(func() { s.rec.meas = nil })
			s.c.Send(pub.RespDataPacket, pub.CmdSubscribe, pub.DataPacket(fl, uint32(len(want)), body, nil, false))
			if err := s.barrier(); err != nil {
				return fmt.Errorf("update %d, slot %d: %w", i, sl, err)
			}
			if err := diffMeas(s.rec.measurements(), want); err != nil {
				return fmt.Errorf("after update %d, packet naming slot %d: %w", i, sl, err)
			}
		}
	}
	if len(c.Updates) > 1 {
		o.NonTrivial()
	}
	if c.Swap {
		o.Label("little-endian")
	}
	return nil
}

func TestC03(t *testing.T) {
	vk.Run(t, vk.Spec[c03Case]{
		ID: "C03", Name: "updates", Rule: "sequences of signal index cache updates over a live session, each followed by lookups and data through both slots; non-trivial: two or more updates",
		Quick: 3500, Deep: 25000,
		Gen: func(t *rapid.T) c03Case {
			c := c03Case{Version: rapid.SampledFrom([]byte{2, 2, 2, 1}).Draw(t, "version"), Compress: rapid.Bool().Draw(t, "compress"), Swap: rapid.Bool().Draw(t, "swap")}
			n := rapid.IntRange(1, 5).Draw(t, "n")
			for i := 0; i < n; i++ {
				max := rapid.SampledFrom([]int{3, 10, 60}).Draw(t, "max")
				c.Updates = append(c.Updates, cacheUpdate{Slot: rapid.IntRange(0, 1).Draw(t, "slot"), SubID: genGuid(t, "sub"), Recs: genCacheRecs(t, max), Extra: rapid.SampledFrom([]int{0, 0, 4, 20}).Draw(t, "extra")})
			}
			if rapid.IntRange(0, 3).Draw(t, "chunked") == 0 {
				c.Chunks = rapid.SliceOfN(rapid.IntRange(1, 50), 1, 4).Draw(t, "chunks")
			}
			return c
		},
		Exec: execC03,
	})
	vk.Run(t, vk.Spec[c03Case]{
		ID: "C03", Name: "large", Rule: "as above, with up to 70000 records or a source name of up to 100000 characters; non-trivial: two or more updates",
		Quick: 4, Deep: 60,
		Gen: func(t *rapid.T) c03Case {
			c := c03Case{Version: rapid.SampledFrom([]byte{2, 2, 1}).Draw(t, "version"), Compress: rapid.Bool().Draw(t, "compress"), Swap: rapid.Bool().Draw(t, "swap")}
			for i := rapid.IntRange(1, 2).Draw(t, "n"); i >= 0; i-- {
				c.Updates = append(c.Updates, cacheUpdate{Slot: rapid.IntRange(0, 1).Draw(t, "slot"), SubID: genGuid(t, "sub"), Recs: genCacheRecs(t, 3),
					Many: rapid.SampledFrom([]int{5, 300, 3000, 33000, 70000}).Draw(t, "many"), Long: rapid.SampledFrom([]int{0, 300, 33000, 70000, 100000}).Draw(t, "long")})
			}
			return c
		},
		Exec: execC03,
	})
}
