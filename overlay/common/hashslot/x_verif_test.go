package hashslot_test

import (
	"common/hashslot"
	"fmt"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verifharness/vh"
)

const slots = hashslot.MaxSlot + 1

type rng struct{ s, e int }

func (r rng) String() string { return fmt.Sprint(r.s, "-", r.e) }

// drawCuts returns sorted disjoint ranges (possibly touching).
func drawCuts(t *rapid.T, label string, max, limit int) []rng {
	n := rapid.IntRange(0, max).Draw(t, label+"n")
	pts := map[int]bool{}
	small := rapid.Bool().Draw(t, label+"small")
	for i := 0; i < 2*n; i++ {
		if small {
			pts[rapid.IntRange(0, 24).Draw(t, label+"p")] = true
		} else {
			pts[rapid.OneOf(rapid.IntRange(0, limit), rapid.SampledFrom([]int{0, 1, limit, limit - 1})).Draw(t, label+"p")] = true
		}
	}
	var ps []int
	for p := range pts {
		ps = append(ps, p)
	}
	sort.Ints(ps)
	var rs []rng
	for i := 0; i+1 < len(ps); {
		rs = append(rs, rng{ps[i], ps[i+1]})
		if rapid.Bool().Draw(t, label+"touch") {
			i++
		} else {
			i += 2
		}
	}
	return rs
}

func TestVerif_C01_partition(t *testing.T) {
	vh.Check(t, vh.N(4000, 40000), "a random assignment of ranges to 1-5 groups, touching or apart, then perhaps damaged by an overlap, a reversed/empty range or malformed text; the owner of every slot and of random keys is compared with an array filled range by range; non-trivial: two or more groups own slots, or the assignment must be refused", func(t *rapid.T, c *vh.Case) {
		rs := drawCuts(t, "r", 8, slots)
		groups := rapid.IntRange(1, 5).Draw(t, "groups")
		m := map[string][]string{}
		var owner [slots + 1]string
		used := map[string]bool{}
		for i := 0; i < groups; i++ {
			if rapid.Bool().Draw(t, "emptygroup") {
				m[fmt.Sprint("g", i)] = nil
			}
		}
		assign := map[string][]rng{}
		for _, r := range rs {
			g := fmt.Sprint("g", rapid.IntRange(0, groups-1).Draw(t, "g"))
			m[g] = append(m[g], r.String())
			assign[g] = append(assign[g], r)
			used[g] = true
			for i := r.s; i < r.e; i++ {
				owner[i] = g
			}
		}
		for g := range m {
			m[g] = rapid.Permutation(m[g]).Draw(t, "perm")
		}
		bad := ""
		switch rapid.IntRange(0, 9).Draw(t, "damage") {
		case 0: // overlap
			if len(rs) > 0 {
				r := rapid.SampledFrom(rs).Draw(t, "over")
				p := rapid.IntRange(r.s, r.e-1).Draw(t, "overp")
				lo := rapid.IntRange(max(0, p-3), p).Draw(t, "lo")
				if rapid.Bool().Draw(t, "swallow") {
					lo = 0
				}
				hi := rapid.IntRange(p+1, p+20).Draw(t, "hi")
				bad = rng{lo, hi}.String()
			}
		case 1:
			a := rapid.IntRange(0, slots).Draw(t, "a")
			b := rapid.IntRange(0, a).Draw(t, "b")
			bad = rng{a, b}.String()
		case 2:
			bad = rapid.SampledFrom([]string{"", "5", "-", "a-b", "1-", "-1", "1-2-3", "1 - 2", "-5-10", "1.5-3", "0x1-0x5", "5--9", "99999999999999999999-1"}).Draw(t, "mal")
		}
		if bad != "" || len(m) == 0 {
			if bad != "" {
				g := fmt.Sprint("g", rapid.IntRange(0, groups-1).Draw(t, "badg"))
				m[g] = append(m[g], bad)
			}
			c.Logf("refuse %v", m)
			c.NonTrivial()
			c.Class("refused")
			if p, err := hashslot.WrapSlots(m); err == nil {
				t.Fatalf("assignment %v (bad range %q) was accepted: %v", m, bad, p)
			}
			return
		}
		p, err := hashslot.WrapSlots(m)
		if err != nil {
			t.Fatalf("valid assignment %v refused: %v", m, err)
		}
		c.Logf("%v", m)
		if len(used) > 1 {
			c.NonTrivial()
		}
		check := func(slot int) {
			got, err := hashslot.GetSlotIdentify(slot, p)
			if owner[slot] == "" {
				if err == nil {
					t.Fatalf("slot %d belongs to nobody in %v, got %q", slot, m, got)
				}
			} else if err != nil || got != owner[slot] {
				t.Fatalf("slot %d belongs to %q in %v, got %q, %v", slot, owner[slot], m, got, err)
			}
		}
		for _, r := range rs {
			for _, s := range []int{r.s - 1, r.s, r.e - 1, r.e} {
				if s >= 0 && s < slots {
					check(s)
				}
			}
		}
		if rapid.IntRange(0, 19).Draw(t, "all") == 0 {
			for s := 0; s < slots; s++ {
				check(s)
			}
		}
		for i := 0; i < 8; i++ {
			k := rapid.StringN(0, 12, 40).Draw(t, "key")
			s := hashslot.CalcBytesSlot([]byte(k))
			if s < 0 || s >= slots {
				t.Fatalf("slot of %q is %d", k, s)
			}
			if again := hashslot.CalcBytesSlot([]byte(strings.Clone(k))); again != s {
				t.Fatalf("slot of %q is %d and %d", k, s, again)
			}
			got, err := hashslot.GetStringIdentify(k, p)
			got2, err2 := hashslot.GetDataIdentify([]byte(k), p)
			if got != got2 || (err == nil) != (err2 == nil) {
				t.Fatalf("key %q: %q,%v as string, %q,%v as bytes", k, got, err, got2, err2)
			}
			if owner[s] == "" {
				if err == nil {
					t.Fatalf("key %q (slot %d) belongs to nobody in %v, got %q", k, s, m, got)
				}
			} else if err != nil || got != owner[s] {
				t.Fatalf("key %q (slot %d) belongs to %q in %v, got %q, %v", k, s, owner[s], m, got, err)
			}
		}
		// what FindRangeCurrentData and CopyOfEdges say
		a := rapid.IntRange(0, slots-1).Draw(t, "a")
		if len(rs) > 0 && rapid.Bool().Draw(t, "atEdge") {
			a = min(slots-1, rapid.SampledFrom(rs).Draw(t, "ae").s)
		}
		b := rapid.IntRange(a+1, slots).Draw(t, "b")
		if len(rs) > 0 && rapid.Bool().Draw(t, "btEdge") {
			if e := rapid.SampledFrom(rs).Draw(t, "be").e; e > a {
				b = e
			}
		}
		found, fully := hashslot.FindRangeCurrentData(a, b, p)
		var got [slots + 1]string
		for _, e := range found {
			for i := e.Start; i < e.End; i++ {
				if i < a || i >= b || got[i] != "" {
					t.Fatalf("FindRangeCurrentData(%d,%d) of %v: %v", a, b, m, found)
				}
				got[i] = e.Value
			}
		}
		wantFull, one := true, true
		for i := a; i < b; i++ {
			if got[i] != owner[i] {
				t.Fatalf("FindRangeCurrentData(%d,%d) of %v: %v: slot %d should be %q", a, b, m, found, i, owner[i])
			}
			wantFull = wantFull && owner[i] != ""
			one = one && owner[i] == owner[a]
		}
		if fully != wantFull {
			t.Fatalf("FindRangeCurrentData(%d,%d) of %v: fully=%v", a, b, m, fully)
		}
		for i := 0; i < groups; i++ {
			g := fmt.Sprint("g", i)
			valid := hashslot.IsValidEdge(&hashslot.Edge{Start: a, End: b, Value: g}, p)
			if valid && !(wantFull && one && owner[a] == g) {
				t.Fatalf("IsValidEdge(%d-%d of %s) in %v", a, b, g, m)
			}
			inOne := false
			for _, r := range assign[g] {
				inOne = inOne || (r.s <= a && b <= r.e)
			}
			if inOne && !valid {
				t.Fatalf("IsValidEdge(%d-%d of %s) in %v is false", a, b, g, m)
			}
			n := 0
			for _, e := range hashslot.CopyOfEdges(g, p) {
				if e.Value != g {
					t.Fatalf("CopyOfEdges(%s) of %v has %v", g, m, e)
				}
				for i := e.Start; i < e.End; i++ {
					if i < slots && owner[i] != g {
						t.Fatalf("CopyOfEdges(%s) of %v has %v", g, m, e)
					}
					n++
				}
			}
			for _, r := range assign[g] {
				n -= r.e - r.s
			}
			if n != 0 {
				t.Fatalf("CopyOfEdges(%s) of %v covers %d slots too many", g, m, n)
			}
		}
	})
}

func toEdges(rs []rng, cap int) hashslot.EdgeList {
	el := make(hashslot.EdgeList, 0, len(rs)+cap)
	for _, r := range rs {
		el = append(el, &hashslot.Edge{Start: r.s, End: r.e, Value: "v"})
	}
	return el
}

func setOf(el hashslot.EdgeList) map[int]bool {
	m := map[int]bool{}
	for _, e := range el {
		for i := e.Start; i < e.End; i++ {
			m[i] = true
		}
	}
	return m
}

func TestVerif_C01_setAlgebra(t *testing.T) {
	vh.Check(t, vh.N(6000, 60000), "two lists of sorted disjoint ranges (dense in 0..24 or sparse in the slot space, with spare capacity or not); union, difference and membership compared with sets of slots; non-trivial: the lists share slots or touch", func(t *rapid.T, c *vh.Case) {
		limit := 400
		a := drawCuts(t, "a", 6, limit)
		b := drawCuts(t, "b", 6, limit)
		if rapid.Bool().Draw(t, "fromA") && len(a) > 0 {
			// second list made from pieces of the first
			b = nil
			for _, r := range a {
				switch rapid.IntRange(0, 3).Draw(t, "piece") {
				case 0:
					b = append(b, r)
				case 1:
					m := rapid.IntRange(r.s, r.e-1).Draw(t, "m")
					b = append(b, rng{m, r.e})
				case 2:
					m := rapid.IntRange(r.s+1, r.e).Draw(t, "m")
					b = append(b, rng{r.s, m})
				}
			}
		}
		spare := rapid.IntRange(0, 8).Draw(t, "cap")
		c.Logf("%v %v cap+%d", a, b, spare)
		sa, sb := setOf(toEdges(a, 0)), setOf(toEdges(b, 0))
		for i := range sa {
			if sb[i] || sb[i+1] || sb[i-1] {
				c.NonTrivial()
			}
		}
		checkForm := func(what string, el hashslot.EdgeList, merged bool) {
			for i, e := range el {
				if e.Start >= e.End {
					t.Fatalf("%s of %v and %v: empty range in %v", what, a, b, el)
				}
				if i > 0 && (el[i-1].End > e.Start || merged && el[i-1].End == e.Start) {
					t.Fatalf("%s of %v and %v: not sorted and disjoint: %v", what, a, b, el)
				}
			}
		}
		ea, eb := toEdges(a, spare), toEdges(b, spare)
		un := hashslot.CombineEdges(ea, eb)
		checkForm("union", un, true)
		su := setOf(un)
		for i := -1; i <= limit; i++ {
			if su[i] != (sa[i] || sb[i]) {
				t.Fatalf("union of %v and %v is %v (slot %d)", a, b, un, i)
			}
			if hashslot.IsSlotInEdges(i, un) != su[i] {
				t.Fatalf("IsSlotInEdges(%d, %v)", i, un)
			}
		}
		if fmt.Sprint(ea) != fmt.Sprint(toEdges(a, 0)) || fmt.Sprint(eb) != fmt.Sprint(toEdges(b, 0)) {
			t.Fatalf("union of %v and %v changed its operands to %v, %v", a, b, ea, eb)
		}
		ea, eb = toEdges(a, spare), toEdges(b, spare)
		df := hashslot.RemoveEdges(ea, eb)
		checkForm("difference", df, false)
		sd := setOf(df)
		for i := -1; i <= limit; i++ {
			if sd[i] != (sa[i] && !sb[i]) {
				t.Fatalf("difference of %v and %v is %v (slot %d)", a, b, df, i)
			}
		}
		if fmt.Sprint(ea) != fmt.Sprint(toEdges(a, 0)) || fmt.Sprint(eb) != fmt.Sprint(toEdges(b, 0)) {
			t.Fatalf("difference of %v and %v changed its operands to %v, %v", a, b, ea, eb)
		}
		// removing and giving back, through the text form used between servers
		back, err := hashslot.WrapSlotsToEdges(hashslot.CombineEdges(df, toEdges(b, 0)).Strings(), "w")
		if err != nil {
			t.Fatalf("text form of the union of %v and %v: %v", df, b, err)
		}
		if x := setOf(back); len(x) != len(su) {
			t.Fatalf("(a-b)+b of %v and %v is %v", a, b, back)
		}
	})
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int { return -min(-a, -b) }
