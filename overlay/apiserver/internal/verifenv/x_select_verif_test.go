package verifenv

import (
	"apiserver/internal/usecase/componet/selector"
	"apiserver/internal/usecase/logic"
	"apiserver/internal/usecase/pool"
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"testing"

	"verifharness/vh"

	"pgregory.net/rapid"
)

// loads of servers: strategies fetch them once (a minute) in a process.
type loads struct {
	cl      *Cluster
	load    map[string]int64 // by address, unreachable servers are missing
	dead    int
	initial []string
}

// newLoads starts servers of many loads, some of them not answering. what is "Capacity" or "Weighted-IO".
func newLoads(what string) *loads {
	l := &loads{cl: NewCluster(40), load: map[string]int64{}}
	rng := rand.New(rand.NewSource(int64(vh.Seed())))
	some := []int64{0, 1, 1000, 5 << 20, 1<<31 - 1, 1 << 31, 3_000_000_000, 1 << 32, 1<<32 + 5, 7 << 40}
	broken := map[int]Fault{}
	for i, d := range l.cl.Servers {
		v := some[rng.Intn(len(some))]
		if rng.Intn(3) == 0 {
			v = rng.Int63n(1 << 44)
		}
		other := rng.Int63n(1 << 44)
		d.mu.Lock()
		d.cap, d.io = v, other
		if what != "Capacity" {
			d.cap, d.io = other, v
		}
		d.mu.Unlock()
		l.initial = append(l.initial, d.Addr)
		switch rng.Intn(8) {
		case 0:
			broken[i] = Fault{Reset: true}
		case 1:
			broken[i] = Fault{Status: 500}
		default:
			l.load[d.Addr] = v
			continue
		}
		l.dead++
	}
	l.cl.SetFault(func(ds *DataServer, _, _ string) Fault { return broken[ds.Idx] })
	return l
}

func (l *loads) of(addr string) (int64, bool) {
	v, ok := l.load[addr]
	return v, ok
}

// spread checks the choices from the servers: a server is used again only when all have been used as often,
// if ranked in the order of the loads.
func (l *loads) spread(t *rapid.T, what string, servers, chosen []string, ranked bool) {
	in := map[string]bool{}
	for _, s := range servers {
		in[s] = true
	}
	round := map[string]bool{}
	var last int64 = -1
	lastOK := true
	for i, s := range chosen {
		if !in[s] {
			t.Fatalf("%s: %q is chosen, available are %q", what, s, servers)
		}
		if round[s] {
			t.Fatalf("%s: choice %d is %q again, though only %d of %d servers have been used in this round: %q", what, i, s, len(round), len(servers), chosen)
		}
		if ranked {
			v, ok := l.of(s)
			if ok && !lastOK || ok && v < last {
				t.Fatalf("%s: choice %d has the load %d (known %t) after %d (known %t)", what, i, v, ok, last, lastOK)
			}
			last, lastOK = v, ok
		}
		round[s] = true
		if len(round) == len(servers) {
			round, last, lastOK = map[string]bool{}, -1, true
		}
	}
}

func (l *loads) subset(t *rapid.T) []string {
	n := rapid.IntRange(1, 12).Draw(t, "servers")
	return append([]string(nil), rapid.Permutation(l.initial).Draw(t, "which")[:n]...)
}

func checkSelect(t *testing.T, strategy, what string) {
	l := newLoads(what)
	ranked := what != ""
	sel := selector.NewSelector(strategy)
	// fetched once
	sel.Select(append([]string(nil), l.initial...))
	l.cl.SetFault(nil)
	vh.Check(t, vh.N(3000, 30000), "more shards than servers, or at least 3 servers of different loads", func(t *rapid.T, c *vh.Case) {
		ds := l.subset(t)
		n := rapid.IntRange(1, 30).Draw(t, "shards")
		c.Logf("%s: %d of %d servers (%d unreachable)", strategy, n, len(ds), l.dead)
		if n > len(ds) || len(ds) > 2 {
			c.NonTrivial()
		}
		c.ClassIf(n > len(ds), "servers used twice")
		lb := selector.NewIPSelector(sel, append([]string(nil), ds...))
		if rapid.Bool().Draw(t, "without history") {
			lb = &selector.IPSelector{Selector: sel, IPs: append([]string(nil), ds...)}
		}
		var chosen []string
		for i := 0; i < n; i++ {
			chosen = append(chosen, lb.Select())
		}
		l.spread(t, "one by one", ds, chosen, ranked)
		// a single one
		one := sel.Select(append([]string(nil), ds...))
		l.spread(t, "a single one", ds, []string{one}, false)
		if v, ok := l.of(one); ranked {
			for _, s := range ds {
				if w, found := l.of(s); found && (!ok || w < v) {
					t.Fatalf("a single one of load %d (known %t) is chosen, %q has %d", v, ok, s, w)
				}
			}
		}
		if left, first := sel.Pop(append([]string(nil), ds...)); len(left) != len(ds)-1 {
			t.Fatalf("%d servers are left of %d", len(left), len(ds))
		} else {
			all := append([]string{first}, left...)
			want := append([]string(nil), ds...)
			sort.Strings(all)
			sort.Strings(want)
			if fmt.Sprint(all) != fmt.Sprint(want) {
				t.Fatalf("%q is chosen of %q, left are %q", first, ds, left)
			}
		}
	})
}

// TestVerif_A08_space ranks by used space.
func TestVerif_A08_space(t *testing.T) { checkSelect(t, "space-first", "Capacity") }

// TestVerif_A08_io ranks by I/O load.
func TestVerif_A08_io(t *testing.T) { checkSelect(t, "IO-first", "Weighted-IO") }

// TestVerif_A08_random ranks nothing.
func TestVerif_A08_random(t *testing.T) { checkSelect(t, "Random", "") }

// TestVerif_A08_discovery chooses from the servers currently registered.
func TestVerif_A08_discovery(t *testing.T) {
	a := api()
	vh.Check(t, vh.N(150, 1500), "at least one server has left", func(t *rapid.T, c *vh.Case) {
		a.Reset()
		all := a.Addrs()
		l := &loads{cl: a.Cluster, load: map[string]int64{}}
		for i, k := 0, rapid.IntRange(1, 4).Draw(t, "changes"); i < k; i++ {
			ds := append([]string(nil), rapid.Permutation(all).Draw(t, "registered")[:rapid.IntRange(0, len(all)).Draw(t, "n")]...)
			a.Register(append([]string(nil), ds...)...)
			if len(ds) < len(all) {
				c.NonTrivial()
			}
			sel := selector.NewSelector(rapid.SampledFrom([]string{"random", "space-first", "io-first"}).Draw(t, "strategy"))
			n := rapid.IntRange(1, 20).Draw(t, "shards")
			chosen := logic.NewDiscovery().SelectDataServer(sel, n)
			c.Logf("%d registered, %d chosen for %d", len(ds), len(chosen), n)
			if len(ds) == 0 {
				if len(chosen) > 0 {
					t.Fatalf("%q are chosen though no server is registered", chosen)
				}
				continue
			}
			if len(chosen) != n {
				t.Fatalf("%d servers are chosen for %d shards", len(chosen), n)
			}
			l.spread(t, "registered", ds, chosen, false)
			pool.Balancer = sel
			lb := logic.NewDiscovery().NewDataServSelector()
			chosen = nil
			for i := 0; i < n; i++ {
				chosen = append(chosen, lb.Select())
			}
			l.spread(t, "one by one", ds, chosen, false)
		}
	})
}

// TestVerif_A08_together_race chooses concurrently, also while the loads are being fetched.
func TestVerif_A08_together_race(t *testing.T) {
	l := newLoads("Capacity")
	vh.Check(t, vh.N(30, 300), "all", func(t *rapid.T, c *vh.Case) {
		c.NonTrivial()
		kinds := []string{"space-first", "io-first", "random"}
		var wg sync.WaitGroup
		var mu sync.Mutex
		bad := ""
		for i, n := 0, rapid.IntRange(2, 8).Draw(t, "choosers"); i < n; i++ {
			sel := selector.NewSelector(rapid.SampledFrom(kinds).Draw(t, "strategy"))
			ds := l.subset(t)
			shards := rapid.IntRange(1, 20).Draw(t, "shards")
			wg.Add(1)
			go func() {
				defer wg.Done()
				lb := selector.NewIPSelector(sel, append([]string(nil), ds...))
				count := map[string]int{}
				for i := 0; i < shards; i++ {
					count[lb.Select()]++
				}
				lo := shards / len(ds)
				for _, s := range ds {
					if count[s] < lo || count[s] > lo+1 {
						mu.Lock()
						bad = fmt.Sprintf("%s chooses %v for %d shards of %d servers", sel.Strategy(), count, shards, len(ds))
						mu.Unlock()
					}
				}
			}()
		}
		wg.Wait()
		c.Logf("done")
		if bad != "" {
			t.Fatal(bad)
		}
	})
}
