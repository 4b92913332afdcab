package props

import (
	"fmt"
	"math"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/transport"
	"pgregory.net/rapid"
	"verif/harness/pub"
	"verif/harness/vk"
)

// metaRow is a row of MeasurementDetail; fields left out of the document are marked null.
type metaRow struct {
	Signal  uint32
	Source  string
	ID      uint64
	Fields  [5]cell // PointTag, SignalReference, SignalAcronym, Description, UpdatedOn
	NoID    bool
	NoGuid  bool // the row has no signal ID and names nothing
	Reorder int
}

type metaDoc struct {
	Cols   [5]bool // which of the five columns the table has
	HasID  bool
	Turn   int  // how far the order of the columns is turned
	Extra  bool // other tables
	Rows   []metaRow
	Before bool   // look up all signals before the document arrives
	Lacks  string // what the document lacks, so that it describes nothing: signal, table, schema, end
	Pad    int    `json:",omitempty"` // rows of other signals before Rows
}

type c15Case struct {
	Lookers    int // goroutines looking up all the time
	Reconnects int // connections after the first
	Docs       []metaDoc
	Adjust     []c15Adjust
}

type c15Adjust struct {
	Signal           uint32
	Mult, Add, Value uint64 // float bits
	Via              int
}

var metaCols = []string{"PointTag", "SignalReference", "SignalAcronym", "Description", "UpdatedOn"}

// doc writes the document through the same writer as C17.
func (d metaDoc) doc() string {
	x := xmlTable{Name: "MeasurementDetail", Cols: []colSpec{{Name: "SignalID", Type: tGuid}}}
	id := -1
	if d.HasID {
		id = len(x.Cols)
		x.Cols = append(x.Cols, colSpec{Name: "ID", Type: tString})
	}
	var pos [5]int
	for i, on := range d.Cols {
		pos[i] = -1
		if on {
			typ := tString
			if i == 4 {
				typ = tDateTime
			}
			pos[i] = len(x.Cols)
			x.Cols = append(x.Cols, colSpec{Name: metaCols[i], Type: typ})
		}
	}
	for _, r := range d.Rows {
		var fs []xmlField
		if !r.NoGuid {
			fs = append(fs, xmlField{Col: 0, Cell: cell{S: formatGUID(guidOf(r.Signal))}})
		}
		if id >= 0 && !r.NoID {
			fs = append(fs, xmlField{Col: id, Cell: cell{S: fmt.Sprintf("%s:%d", r.Source, r.ID)}})
		}
		for i, c := range r.Fields {
			if pos[i] >= 0 && !c.Null {
				fs = append(fs, xmlField{Col: pos[i], Cell: c})
			}
		}
		if k := len(fs); k > 0 {
			fs = append(fs[r.Reorder%k:], fs[:r.Reorder%k]...)
		}
		x.Rows = append(x.Rows, fs)
	}
	switch d.Lacks {
	case "signal":
		x.Cols[0].Name = "SignalGuid"
	case "table":
		x.Name = "MeasurementDetails"
	}
	k := d.Turn % len(x.Cols)
	for i := range x.Rows {
		for j := range x.Rows[i] {
			x.Rows[i][j].Col = (x.Rows[i][j].Col - k + len(x.Cols)) % len(x.Cols)
		}
	}
	x.Cols = append(x.Cols[k:], x.Cols[:k]...)
	c := c17Case{Prefix: "xs", Ext: "ext", Tables: []xmlTable{x}}
	if d.Lacks == "schema" {
		c.Flaw = "missing"
	}
	if d.Extra {
		c.Interval = true
		c.Tables = append(c.Tables, xmlTable{Name: "DeviceDetail", Cols: []colSpec{{Name: "Acronym", Type: tString}}, Rows: [][]xmlField{{{Col: 0, Cell: cell{S: "DEV"}}}}},
			xmlTable{Name: "SchemaVersion", Cols: []colSpec{{Name: "VersionNumber", Type: tInt32}}, Rows: [][]xmlField{{{Col: 0, Cell: cell{S: "9"}}}}})
	}
	if text := c.doc(); d.Lacks == "end" {
		return text[:len(text)-3]
	}
	return c.doc()
}

// summary checks that what was logged counts the records of every table.
func (d metaDoc) summary(logged []string) error {
	text := strings.Join(logged, "\n")
	has := func(words ...string) bool {
		for _, line := range strings.Split(text, "\n") {
			fields, ok := strings.Fields(strings.ReplaceAll(line, ",", "")), true
			for _, w := range words {
				ok = ok && slices.Contains(fields, w)
			}
			if ok {
				return true
			}
		}
		return false
	}
	total := len(d.Rows)
	counts := [][]string{{"MeasurementDetail", fmt.Sprint(len(d.Rows))}}
	if d.Extra {
		total += 2
		counts = append(counts, []string{"DeviceDetail", "1"}, []string{"SchemaVersion", "1"}, []string{"version:", "9"})
	}
	for _, words := range append(counts, []string{"metadata", "records", fmt.Sprint(total)}) {
		if !has(words...) {
			return fmt.Errorf("the summary of the metadata has no line with %q: %q", words, text)
		}
	}
	return nil
}

const c15Signals = 10

type c15Look struct {
	conn int32
	id   uint32
	rec  *transport.MeasurementMetadata
}

func execC15(c c15Case, o *vk.Obs) error {
	c.Docs = slices.Clone(c.Docs)
	for i := range c.Docs {
		d := &c.Docs[i]
		var rows []metaRow
		for k := 0; k < d.Pad; k++ {
			r := metaRow{Signal: uint32(100000 + k), Source: "PAD", ID: uint64(k)}
			for f := range r.Fields {
				r.Fields[f].Null = true
			}
			rows = append(rows, r)
		}
		d.Rows = append(rows, d.Rows...)
	}
	p, err := pub.Listen()
	if err != nil {
		return vk.Broken("listen: %v", err)
	}
	defer p.Close()
	sub := sttp.NewSubscriber()
	var metas atomic.Int32
	var log recorder
	sub.SetStatusMessageLogger(func(m string) { log.with(func() { log.statuses = append(log.statuses, m) }) })
	sub.SetErrorMessageLogger(func(m string) { log.with(func() { log.errs = append(log.errs, m) }) })
	logged := func() (statuses, errs []string) {
		log.with(func() { statuses, errs = log.statuses, log.errs })
		return
	}
	sub.SetMetadataReceiver(func(ds *data.DataSet) {
		if ds.TableCount() > 0 {
			metas.Add(1)
		}
	})
	cfg := sttp.NewConfig()
	cfg.MaxRetries, cfg.AutoReconnect, cfg.AutoRequestMetadata, cfg.AutoSubscribe = 1, false, false, false
	cfg.CompressMetadata = len(c.Docs)%2 == 0
	var stop atomic.Bool
	var wg sync.WaitGroup
	defer func() {
		stop.Store(true)
		wg.Wait()
		pendingCloses <- struct{}{}
		go func() { sub.Close(); <-pendingCloses }()
	}()

	// Lookups outside a connection are attributed to none
	var current atomic.Int32
	var mu sync.Mutex
	seen := map[c15Look]bool{}
	for g := 0; g < c.Lookers; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			local := map[c15Look]bool{}
			for n := uint32(g); !stop.Load(); n++ {
				before := current.Load()
				id := n % (c15Signals + 2)
				var rec *transport.MeasurementMetadata
				if n%3 == 0 {
					rec = sub.Metadata(&transport.Measurement{SignalID: guidOf(id)})
				} else {
					rec = sub.LookupMetadata(guidOf(id))
				}
				if before > 0 && current.Load() == before {
					local[c15Look{before, id, rec}] = true
				}
				if n%8 == 0 {
					runtime.Gosched()
				}
			}
			mu.Lock()
			for l := range local {
				seen[l] = true
			}
			mu.Unlock()
		}()
	}

	rows, seq := 0, uint32(0)
	for n := 0; n <= c.Reconnects; n++ {
		if err := sub.Dial(p.Addr(), cfg); err != nil {
			return fmt.Errorf("connect: %v", err)
		}
		conn, err := p.Accept(o.Wait())
		if err != nil {
			return vk.Stuck("no connection: %v", err)
		}
		defer conn.Close()
		if err := conn.WaitCount(o.Wait(), pub.CmdDefineModes, 1); err != nil {
			return vk.Stuck("operational modes not received: %v", err)
		}
		current.Store(int32(n + 1))
		conn.Send(pub.RespSucceeded, pub.CmdDefineModes, []byte("ok"))
		type want struct {
			row metaRow
			set bool // source and ID are known
		}
		known := map[uint32]*transport.MeasurementMetadata{}
		model := map[uint32]*want{}
		for _, d := range c.Docs {
			if d.Before {
				for s := uint32(0); s < c15Signals; s++ {
					known[s] = sub.LookupMetadata(guidOf(s))
				}
			}
			body := []byte(d.doc())
			if cfg.CompressMetadata {
				body = pub.Gzip(body)
			}
			m0 := metas.Load()
			s0, e0 := logged()
			if err := conn.Send(pub.RespSucceeded, pub.CmdMetadataRefresh, body); err != nil {
				return fmt.Errorf("connection ended: %v", err)
			}
			if d.Lacks == "schema" || d.Lacks == "end" {
				if err := alive(o, conn, &seq); err != nil {
					return fmt.Errorf("after metadata that cannot be read: %w", err)
				}
			} else if !until(o.Wait(), func() bool { return metas.Load() > m0 }) {
				return vk.Stuck("metadata was not received")
			}
			if d.Lacks != "" {
				o.Label("lacks %s", d.Lacks)
				if !until(o.Wait(), func() bool { _, e := logged(); return len(e) > len(e0) }) {
					return vk.Stuck("metadata that lacks its %s is not reported as an error", d.Lacks)
				}
			} else {
				s1, e1 := logged()
				if len(e1) > len(e0) {
					return fmt.Errorf("valid metadata is reported as an error: %q", e1[len(e0):])
				}
				if err := d.summary(s1[len(s0):]); err != nil {
					return err
				}
			}
			for _, r := range d.Rows {
				if r.NoGuid || d.Lacks != "" {
					continue
				}
				rows++
				w := model[r.Signal]
				if w == nil {
					w = &want{row: metaRow{Signal: r.Signal, Fields: [5]cell{{Null: true}, {Null: true}, {Null: true}, {Null: true}, {Null: true}}}}
					model[r.Signal] = w
				}
				if d.HasID && !r.NoID {
					w.row.Source, w.row.ID, w.set = r.Source, r.ID, false
				} else if d.HasID {
					w.set = true // a row without ID after one with: either outcome
				}
				for i := range d.Cols {
					if d.Cols[i] {
						w.row.Fields[i] = r.Fields[i]
					}
				}
			}
			for s := uint32(0); s < c15Signals; s++ {
				rec := sub.LookupMetadata(guidOf(s))
				if known[s] != nil && known[s] != rec {
					return fmt.Errorf("lookups of signal %d returned different records", s)
				}
				known[s] = rec
				if rec.SignalID != guidOf(s) {
					return fmt.Errorf("record of signal %d has ID %s", s, rec.SignalID)
				}
				if rec.Multiplier != 1 || rec.Adder != 0 {
					return fmt.Errorf("record of signal %d has multiplier %v, adder %v", s, rec.Multiplier, rec.Adder)
				}
				w := model[s]
				if w == nil {
					w = &want{row: metaRow{Fields: [5]cell{{Null: true}, {Null: true}, {Null: true}, {Null: true}, {Null: true}}}}
				}
				if !w.set && (rec.Source != w.row.Source || rec.ID != w.row.ID) {
					return fmt.Errorf("signal %d: key %q %d, metadata has %q %d", s, rec.Source, rec.ID, w.row.Source, w.row.ID)
				}
				for i, got := range []string{rec.Tag, rec.SignalReference, rec.SignalType, rec.Description} {
					if got != w.row.Fields[i].S {
						return fmt.Errorf("signal %d: %s is %q, metadata has %q", s, metaCols[i], got, w.row.Fields[i].S)
					}
				}
				at := time.Time{}
				if !w.row.Fields[4].Null {
					at, _ = time.Parse(time.RFC3339Nano, w.row.Fields[4].S)
				}
				if !rec.UpdatedOn.Equal(at) {
					return fmt.Errorf("signal %d: updated on %v, metadata has %v", s, rec.UpdatedOn, at)
				}
			}
		}
		for _, a := range c.Adjust {
			id := guidOf(a.Signal)
			m := &transport.Measurement{SignalID: id, Value: math.Float64frombits(a.Value)}
			want := m.Value
			if a.Via > 0 {
				rec := sub.Metadata(m)
				rec.Multiplier, rec.Adder = math.Float64frombits(a.Mult), math.Float64frombits(a.Add)
				want = m.Value * rec.Multiplier
				want += rec.Adder
			} else if a.Signal < c15Signals {
				continue // may have been adjusted before
			}
			if got := sub.AdjustedValue(m); f64bits(got) != f64bits(want) {
				return fmt.Errorf("adjusted value of %v is %v, want %v", m.Value, got, want)
			}
			o.Label("adjusted")
		}
		current.Store(0)
		sub.Disconnect()
		if err := conn.WaitClosed(o.Wait()); err != nil {
			return vk.Stuck("connection not closed: %v", err)
		}
		if !until(o.Wait(), func() bool { return !sub.IsConnected() }) {
			return vk.Stuck("subscriber still connected after disconnect")
		}
	}
	stop.Store(true)
	wg.Wait()
	one := map[[2]uint32]*transport.MeasurementMetadata{}
	for l := range seen {
		k := [2]uint32{uint32(l.conn), l.id}
		if one[k] != nil && one[k] != l.rec {
			return fmt.Errorf("concurrent lookups of signal %d returned different records", l.id)
		}
		one[k] = l.rec
	}
	if rows > 0 && c.Lookers > 0 {
		o.NonTrivial()
	}
	o.Label(fmt.Sprintf("connections %d", c.Reconnects+1))
	return nil
}

// c15Race looks up fresh signals from several goroutines released together.
type c15Race struct {
	Signals []uint32
	Workers int
	Sub     bool
}

func execC15Race(c c15Race, o *vk.Obs) error {
	ds := transport.NewDataSubscriber()
	sub := sttp.NewSubscriber()
	look := func(n int, g guid.Guid) *transport.MeasurementMetadata {
		switch {
		case c.Sub && n%2 == 0:
			return sub.LookupMetadata(g)
		case c.Sub:
			return sub.Metadata(&transport.Measurement{SignalID: g})
		case n%2 == 0:
			return ds.LookupMetadata(g)
		}
		return ds.Metadata(&transport.Measurement{SignalID: g})
	}
	got := make([][]*transport.MeasurementMetadata, c.Workers)
	var ready, done sync.WaitGroup
	var start atomic.Bool
	for w := range got {
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			ready.Done()
			for !start.Load() {
			}
			for i, s := range c.Signals {
				got[w] = append(got[w], look(w+i, guidOf(s)))
			}
		}()
	}
	ready.Wait()
	start.Store(true)
	done.Wait()
	for w := range got {
		for i, s := range c.Signals {
			if got[w][i] != got[0][i] {
				return fmt.Errorf("concurrent lookups of signal %d returned different records", s)
			}
			r := got[w][i]
			want := transport.MeasurementMetadata{SignalID: guidOf(s), Multiplier: 1}
			if *r != want {
				return fmt.Errorf("record of an unlisted signal is %+v", *r)
			}
		}
	}
	if c.Workers > 1 {
		o.NonTrivial()
	}
	return nil
}

func genFloatBits(t *rapid.T) uint64 {
	v := rapid.SampledFrom([]float64{0, 1, -1, 0.5, 2, 1e300, -3.25, math.Inf(1), math.NaN(), math.Copysign(0, -1), 0.1}).Draw(t, "float")
	if rapid.Bool().Draw(t, "rnd") {
		v = rapid.Float64().Draw(t, "f")
	}
	return math.Float64bits(v)
}

func genC15(t *rapid.T) c15Case {
	c := c15Case{Lookers: rapid.IntRange(0, 3).Draw(t, "lookers"), Reconnects: rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "reconnects")}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "docs"); i < n; i++ {
		d := metaDoc{HasID: rapid.IntRange(0, 5).Draw(t, "hasid") > 0, Extra: rapid.Bool().Draw(t, "extra"), Before: rapid.Bool().Draw(t, "before"), Turn: rapid.IntRange(0, 6).Draw(t, "turn"),
			Lacks: rapid.SampledFrom([]string{"", "", "", "", "", "", "", "", "", "signal", "table", "schema", "end"}).Draw(t, "lacks")}
		for k := range d.Cols {
			d.Cols[k] = rapid.IntRange(0, 5).Draw(t, "col") > 0
		}
		for k, m := 0, rapid.IntRange(0, 8).Draw(t, "rows"); k < m; k++ {
			r := metaRow{Signal: uint32(rapid.IntRange(0, c15Signals-2).Draw(t, "signal")), Source: strings.ReplaceAll(genText(t), ":", ""),
				ID: rapid.OneOf(rapid.Uint64Range(0, 100), rapid.Uint64()).Draw(t, "id"), NoID: rapid.IntRange(0, 7).Draw(t, "noid") == 0,
				NoGuid: rapid.IntRange(0, 9).Draw(t, "noguid") == 0, Reorder: rapid.IntRange(0, 6).Draw(t, "order")}
			for f := range r.Fields {
				typ := tString
				if f == 4 {
					typ = tDateTime
				}
				r.Fields[f] = genCell(t, typ, 5)
			}
			d.Rows = append(d.Rows, r)
		}
		c.Docs = append(c.Docs, d)
	}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "adjusts"); i < n; i++ {
		c.Adjust = append(c.Adjust, c15Adjust{Signal: uint32(rapid.IntRange(0, c15Signals-1).Draw(t, "signal")), Mult: genFloatBits(t), Add: genFloatBits(t), Value: genFloatBits(t), Via: rapid.IntRange(0, 3).Draw(t, "via")})
	}
	return c
}

func TestC15(t *testing.T) {
	vk.Run(t, vk.Spec[c15Case]{
		ID: "C15", Name: "metadata", Rule: "metadata documents over several connections while other goroutines look up; non-trivial: a listed signal and a concurrent looker",
		Quick: 1500, Deep: 60000,
		Gen:  genC15,
		Exec: execC15,
	})
	vk.Run(t, vk.Spec[c15Case]{
		ID: "C15", Name: "large", Rule: "as above with up to 3000 rows of other signals; non-trivial: as above",
		Quick: 12, Deep: 300,
		Gen: func(t *rapid.T) c15Case {
			c := genC15(t)
			for i := range c.Docs {
				c.Docs[i].Pad = rapid.SampledFrom([]int{0, 300, 1100, 3000}).Draw(t, "pad")
			}
			return c
		},
		Exec: execC15,
	})
	vk.Run(t, vk.Spec[c15Race]{
		ID: "C15", Name: "race", Rule: "fresh signals looked up by goroutines released together; non-trivial: two or more goroutines",
		Quick: 4000, Deep: 150000,
		Gen: func(t *rapid.T) c15Race {
			return c15Race{Workers: rapid.IntRange(1, 6).Draw(t, "workers"), Sub: rapid.Bool().Draw(t, "sub"),
				Signals: rapid.SliceOfNDistinct(rapid.Uint32Range(0, 5000), 1, 20, rapid.ID[uint32]).Draw(t, "signals")}
		},
		Exec: execC15Race,
	})
}
