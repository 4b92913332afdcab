package props

import (
	"fmt"
	"sort"
	"testing"

	"github.com/sttp/goapi/sttp/hashset"
	"pgregory.net/rapid"
	"verif/harness/vk"
)

type c24Op struct {
	Op    string
	Set   int   // which of two sets it applies to
	Items []int // argument; for single items the first
	Other bool  // for set arguments: the other set, or the set itself when false
}

type c24Case struct {
	Wide int `json:",omitempty"` // each element stands for so many
	Init [2][]int
	Ops  []c24Op
}

var c24Ops = []string{"add", "remove", "contains", "removewhere", "clear", "empty", "keys", "except", "symmetric", "intersect", "union", "equals", "overlaps", "subset", "propersubset", "superset", "propersuperset",
	"exceptset", "symmetricset", "intersectset", "unionset", "equalsset", "overlapsset", "subsetset", "propersubsetset", "supersetset", "propersupersetset"}

type intSet map[int]bool

func newIntSet(items []int) intSet {
	s := intSet{}
	for _, i := range items {
		s[i] = true
	}
	return s
}

func (s intSet) sorted() []int {
	out := []int{}
	for k := range s {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func (s intSet) within(t intSet) bool {
	for k := range s {
		if !t[k] {
			return false
		}
	}
	return true
}

func (c c24Case) widened() c24Case {
	if c.Wide == 0 {
		return c
	}
	widen := func(items []int) (out []int) {
		for _, i := range items {
			for k := 0; k < c.Wide; k++ {
				out = append(out, i*c.Wide+k)
			}
		}
		return
	}
	w := c24Case{Init: [2][]int{widen(c.Init[0]), widen(c.Init[1])}}
	for _, op := range c.Ops {
		op.Items = widen(op.Items)
		w.Ops = append(w.Ops, op)
	}
	return w
}

func execC24(c c24Case, o *vk.Obs) error {
	c = c.widened()
	var sets [2]hashset.HashSet[string]
	var model [2]intSet
	name := func(i int) string { return fmt.Sprintf("e%d", i) }
	names := func(is []int) []string {
		var out []string
		for _, i := range is {
			out = append(out, name(i))
		}
		return out
	}
	for i := range sets {
		sets[i] = hashset.NewHashSet(names(c.Init[i]))
		model[i] = newIntSet(c.Init[i])
	}
	same := func(i int) error {
		keys := sets[i].Keys()
		sort.Strings(keys)
		want := names(model[i].sorted())
		sort.Strings(want)
		if fmt.Sprint(keys) != fmt.Sprint(want) || len(sets[i]) != len(want) {
			return fmt.Errorf("set holds %v, should hold %v", keys, want)
		}
		return nil
	}
	for n, op := range c.Ops {
		hs, m := sets[op.Set], model[op.Set]
		items, arg := names(op.Items), newIntSet(op.Items)
		before := append([]string(nil), items...)
		k := op.Set
		if op.Other {
			k = 1 - op.Set
		}
		hset, mset := sets[k], model[k]
		if len(m) == 0 && (op.Op == "propersuperset" || op.Op == "propersupersetset") {
			// The repository's own tests ask for the wrong answer here
			if len(c.Ops) == 1 && hs.IsProperSupersetOf(items) {
				return vk.Known("empty-proper-superset", "the empty set is reported as a proper superset of other sets")
			}
			continue
		}
		if len(op.Items) > len(arg) {
			o.NonTrivial()
		}
		// The set used as an argument may be the set itself, so the result is computed before it changes
		next := intSet{}
		for e := range m {
			next[e] = true
		}
		var got, want any
		switch op.Op {
		case "add", "remove", "contains":
			if len(items) == 0 {
				continue
			}
			has := m[op.Items[0]]
			switch op.Op {
			case "add":
				got, want = hs.Add(items[0]), !has
				next[op.Items[0]] = true
			case "remove":
				got, want = hs.Remove(items[0]), has
				delete(next, op.Items[0])
			case "contains":
				got, want = hs.Contains(items[0]), has
			}
		case "removewhere":
			cnt := 0
			for e := range m {
				if arg[e] {
					cnt++
					delete(next, e)
				}
			}
			pick := map[string]bool{}
			for _, s := range items {
				pick[s] = true
			}
			got, want = hs.RemoveWhere(func(s string) bool { return pick[s] }), cnt
		case "clear":
			hs.Clear()
			next = intSet{}
		case "empty":
			got, want = hs.IsEmpty(), len(m) == 0
		case "keys":
			keys := hs.Keys()
			for i := range keys {
				keys[i] = "changed"
			}
		case "except", "exceptset":
			if op.Op == "except" {
				hs.ExceptWith(items)
			} else {
				arg = mset
				hs.ExceptWithSet(hset)
			}
			for e := range m {
				if arg[e] {
					delete(next, e)
				}
			}
		case "symmetric", "symmetricset":
			if op.Op == "symmetric" {
				hs.SymmetricExceptWith(items)
			} else {
				arg = mset
				hs.SymmetricExceptWithSet(hset)
			}
			next = intSet{}
			for e := range m {
				if !arg[e] {
					next[e] = true
				}
			}
			for e := range arg {
				if !m[e] {
					next[e] = true
				}
			}
		case "intersect", "intersectset":
			if op.Op == "intersect" {
				hs.IntersectWith(items)
			} else {
				arg = mset
				hs.IntersectWithSet(hset)
			}
			for e := range m {
				if !arg[e] {
					delete(next, e)
				}
			}
		case "union", "unionset":
			if op.Op == "union" {
				hs.UnionWith(items)
			} else {
				arg = mset
				hs.UnionWithSet(hset)
			}
			for e := range arg {
				next[e] = true
			}
		case "equals":
			got, want = hs.SetEquals(items), m.within(arg) && arg.within(m)
		case "overlaps", "overlapsset":
			if op.Op == "overlaps" {
				got = hs.Overlaps(items)
			} else {
				arg, got = mset, hs.OverlapsSet(hset)
			}
			any := false
			for e := range m {
				any = any || arg[e]
			}
			want = any
		case "subset":
			got, want = hs.IsSubsetOf(items), m.within(arg)
		case "propersubset":
			got, want = hs.IsProperSubsetOf(items), m.within(arg) && len(m) < len(arg)
		case "superset":
			got, want = hs.IsSupersetOf(items), arg.within(m)
		case "propersuperset":
			got, want = hs.IsProperSupersetOf(items), arg.within(m) && len(arg) < len(m)
		case "equalsset":
			got, want = hs.SetEqualsSet(hset), m.within(mset) && mset.within(m)
		case "subsetset":
			got, want = hs.IsSubsetOfSet(hset), m.within(mset)
		case "propersubsetset":
			got, want = hs.IsProperSubsetOfSet(hset), m.within(mset) && len(m) < len(mset)
		case "supersetset":
			got, want = hs.IsSupersetOfSet(hset), mset.within(m)
		case "propersupersetset":
			got, want = hs.IsProperSupersetOfSet(hset), mset.within(m) && len(mset) < len(m)
		}
		if got != want {
			return fmt.Errorf("step %d: %s %v on %v returned %v, should be %v", n, op.Op, op.Items, m.sorted(), got, want)
		}
		for i := range items {
			if items[i] != before[i] {
				return fmt.Errorf("step %d: %s changed its argument", n, op.Op)
			}
		}
		model[op.Set] = next
		for i := range sets {
			if err := same(i); err != nil {
				return fmt.Errorf("step %d: after %s %v on %v: %v", n, op.Op, op.Items, m.sorted(), err)
			}
		}
		o.Label(op.Op)
	}
	return nil
}

func genC24(t *rapid.T) c24Case {
	items := rapid.SliceOfN(rapid.IntRange(0, 5), 0, 7)
	c := c24Case{Init: [2][]int{items.Draw(t, "init0"), items.Draw(t, "init1")}}
	for i, n := 0, rapid.IntRange(1, 8).Draw(t, "ops"); i < n; i++ {
		c.Ops = append(c.Ops, c24Op{Op: rapid.SampledFrom(c24Ops).Draw(t, "op"), Set: rapid.IntRange(0, 1).Draw(t, "set"), Items: items.Draw(t, "items"), Other: rapid.IntRange(0, 4).Draw(t, "other") > 0})
	}
	return c
}

func TestC24(t *testing.T) {
	vk.Run(t, vk.Spec[c24Case]{
		ID: "C24", Name: "sets", Rule: "operation sequences on two sets over a few elements; non-trivial: an argument list with duplicates",
		Quick: 30000, Deep: 1500000,
		Gen:   genC24,
		Exec:  execC24,
		Fixed: []c24Case{{Ops: []c24Op{{Op: "propersuperset", Items: []int{1}}}}},
	})
	vk.Run(t, vk.Spec[c24Case]{
		ID: "C24", Name: "large", Rule: "as above with elements that stand for up to 2000; non-trivial: as above",
		Quick: 150, Deep: 5000,
		Gen: func(t *rapid.T) c24Case {
			c := genC24(t)
			c.Wide = rapid.SampledFrom([]int{2, 11, 100, 2000}).Draw(t, "wide")
			return c
		},
		Exec: execC24,
	})
}
