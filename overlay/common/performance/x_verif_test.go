package performance_test

import (
	"common/performance"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
	"verifharness/vh"
)

func TestMain(m *testing.M) {
	logrus.SetOutput(io.Discard)
	os.Exit(m.Run())
}

type rec = performance.Perform

func sorted(rs []*rec) []string {
	s := make([]string, 0, len(rs))
	for _, r := range rs {
		s = append(s, fmt.Sprintf("%s|%s|%d", r.KindOf, r.Action, r.Cost))
	}
	sort.Strings(s)
	return s
}

func sel(rs []*rec, kind, action string) (out []*rec) {
	for _, r := range rs {
		if (kind == "" || r.KindOf == kind) && (action == "" || r.Action == action) {
			out = append(out, r)
		}
	}
	return
}

func aggregate(rs []*rec, avg bool) []*rec {
	sum, cnt := map[[2]string]time.Duration{}, map[[2]string]int{}
	for _, r := range rs {
		k := [2]string{r.KindOf, r.Action}
		sum[k] += r.Cost
		cnt[k]++
	}
	var out []*rec
	for k, v := range sum {
		if avg {
			v /= time.Duration(cnt[k])
		}
		out = append(out, &rec{KindOf: k[0], Action: k[1], Cost: v})
	}
	return out
}

var kinds = []string{"http", "http2", "grpc", "disk", "disk-io", "d"}
var actions = []string{"write", "read", "read-ahead", "rea", "write_x"}

func checkStore(t *rapid.T, st performance.Store, model []*rec, kind, action string) {
	exp := sel(model, kind, action)
	what := fmt.Sprintf("kind %q action %q", kind, action)
	compare := func(op string, got []*rec, err error, want []*rec) {
		if err != nil {
			if len(want) == 0 {
				return // nothing stored may be reported as not existing
			}
			t.Fatalf("%s of %s: %v, want %v", op, what, err, sorted(want))
		}
		if g, w := strings.Join(sorted(got), " "), strings.Join(sorted(want), " "); g != w {
			t.Fatalf("%s of %s:\ngot  %s\nwant %s", op, what, g, w)
		}
	}
	got, err := st.Get(kind, action)
	compare("get", got, err, exp)
	got, err = st.Average(kind, action)
	compare("average", got, err, aggregate(exp, true))
	got, err = st.Sum(kind, action)
	compare("sum", got, err, aggregate(exp, false))
	n, err := st.Size(kind, action)
	if int(n) != len(exp) || (err != nil && len(exp) > 0) {
		t.Fatalf("size of %s: %d, %v, want %d", what, n, err, len(exp))
	}
}

func drawRecs(t *rapid.T, maxN int) []*rec {
	n := rapid.IntRange(0, maxN).Draw(t, "n")
	var rs []*rec
	for i := 0; i < n; i++ {
		rs = append(rs, &rec{KindOf: rapid.SampledFrom(kinds).Draw(t, "kind"), Action: rapid.SampledFrom(actions).Draw(t, "action"),
			Cost: time.Duration(rapid.OneOf(rapid.Int64Range(0, 300), rapid.Int64Range(0, 1<<40)).Draw(t, "cost"))})
	}
	return rs
}

func TestVerif_C06_store(t *testing.T) {
	dir, err := os.MkdirTemp("", "c06")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	i := 0
	vh.Check(t, vh.N(120, 1500), "histories of put batches (up to 40 records over kinds and actions that are prefixes of one another), clear by kind, action, both or all, and queries, against a plain list; non-trivial: more than ten records of one kind and action, or a clear of stored records", func(t *rapid.T, c *vh.Case) {
		i++
		p := filepath.Join(dir, fmt.Sprint("db", i))
		st := performance.NewLocalStore(p)
		if st == nil {
			t.Fatal("store does not open")
		}
		defer os.Remove(p)
		var model []*rec
		var held []*rec
		var heldWant string
		steps := rapid.IntRange(1, 8).Draw(t, "steps")
		for s := 0; s < steps; s++ {
			kind, action := "", ""
			if rapid.Bool().Draw(t, "bykind") {
				kind = rapid.SampledFrom(kinds).Draw(t, "kind")
			}
			if rapid.Bool().Draw(t, "byaction") {
				action = rapid.SampledFrom(actions).Draw(t, "action")
			}
			switch rapid.IntRange(0, 4).Draw(t, "op") {
			case 0, 1, 2:
				rs := drawRecs(t, 40)
				c.Logf("put %v", sorted(rs))
				if err := st.Put(rs); err != nil {
					t.Fatalf("put: %v", err)
				}
				model = append(model, rs...)
			case 3:
				c.Logf("clear %q %q", kind, action)
				gone := sel(model, kind, action)
				if len(gone) > 0 {
					c.NonTrivial()
					c.Class("clear " + map[bool]string{true: "kind"}[kind != ""] + map[bool]string{true: "action"}[action != ""])
				}
				if err := st.Clear(kind, action); err != nil && (len(gone) > 0 || len(model) == 0 && kind == "" && action == "") {
					t.Fatalf("clear %q %q: %v", kind, action, err)
				}
				var rest []*rec
				for _, r := range model {
					if !((kind == "" || r.KindOf == kind) && (action == "" || r.Action == action)) {
						rest = append(rest, r)
					}
				}
				model = rest
			}
			checkStore(t, st, model, kind, action)
			if rapid.Bool().Draw(t, "hold") {
				held, _ = st.Get(kind, action)
				heldWant = strings.Join(sorted(held), " ")
			}
		}
		if g := strings.Join(sorted(held), " "); g != heldWant {
			t.Fatalf("an earlier answer changed:\nwas %s\nis  %s", heldWant, g)
		}
		for _, k := range append([]string{""}, kinds...) {
			for _, a := range append([]string{""}, actions...) {
				if len(sel(model, k, a)) > 10 && k != "" && a != "" {
					c.NonTrivial()
				}
				checkStore(t, st, model, k, a)
			}
		}
	})
}

type listStore struct {
	performance.Store
	recs []*rec
	fail bool
}

func (l *listStore) Put(rs []*rec) error {
	if l.fail {
		return fmt.Errorf("refused")
	}
	for _, r := range rs {
		cp := *r
		l.recs = append(l.recs, &cp)
	}
	return nil
}

func TestVerif_C06_collector(t *testing.T) {
	vh.Check(t, vh.N(1500, 15000), "histories of puts and flushes on a collector with a small buffer, keeping or flushing when full, with a store that sometimes refuses; what the store holds after the last flush against a model; non-trivial: the buffer overflowed", func(t *rapid.T, c *vh.Case) {
		ls := &listStore{}
		performance.SetLocalStore(ls)
		maxMem := rapid.IntRange(1, 6).Draw(t, "max")
		flushFull := rapid.Bool().Draw(t, "flushWhenFull")
		col := performance.NewCollector(&performance.Config{Enable: true, Store: performance.Local, FlushInterval: time.Hour, MaxInMemory: maxMem, FlushWhenReached: flushFull})
		var stored, mem []*rec
		n := rapid.IntRange(1, 25).Draw(t, "n")
		c.Logf("max %d flushWhenFull %v n %d", maxMem, flushFull, n)
		flush := func() error {
			if ls.fail {
				return fmt.Errorf("refused")
			}
			stored = append(stored, mem...)
			mem = nil
			return nil
		}
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 9).Draw(t, "op") {
			case 0:
				c.Logf("flush")
				if (col.Flush() == nil) != (flush() == nil) {
					t.Fatal("flush answers differently")
				}
			case 1:
				if flushFull {
					ls.fail = !ls.fail
					c.Logf("fail=%v", ls.fail)
				}
			default:
				r := &rec{KindOf: rapid.SampledFrom(kinds).Draw(t, "kind"), Action: rapid.SampledFrom(actions).Draw(t, "action"), Cost: time.Duration(i)}
				c.Logf("put %s %s", r.KindOf, r.Action)
				err := col.Put(r.Action, r.KindOf, r.Cost)
				mem = append(mem, r)
				var exp error
				if len(mem) > maxMem {
					c.NonTrivial()
					if flushFull {
						exp = flush()
					} else {
						mem = mem[1:]
					}
				}
				if (err == nil) != (exp == nil) {
					t.Fatalf("put: %v, want %v", err, exp)
				}
			}
		}
		ls.fail = false
		if err := col.Close(); err != nil {
			t.Fatal(err)
		}
		_ = flush()
		if g, w := strings.Join(sorted(ls.recs), " "), strings.Join(sorted(stored), " "); g != w {
			t.Fatalf("store holds\n%s\nwant\n%s", g, w)
		}
	})
}
