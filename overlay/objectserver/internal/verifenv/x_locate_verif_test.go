package verifenv

import (
	"common/cst"
	"common/util"
	"context"
	"errors"
	"fmt"
	"objectserver/internal/usecase/pool"
	"objectserver/internal/usecase/service"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verifharness/fakeetcd"
	"verifharness/vh"
)

func TestVerif_O08_locator(t *testing.T) {
	n := node(t, 2)
	vh.Check(t, vh.N(250, 8000), "searches (also malformed ones, several at once, and while the watch breaks or the answer cannot be put) for shards of a server that stores, commits, loses and deletes objects, restarts, and is "+
		"registered at changing addresses or not at all; a search is answered once, under its key, with the registered address and the shard's number, if the server has that shard, and not otherwise; non-trivial: searches for stored and absent ones", func(t *rapid.T, c *vh.Case) {
		w := newWorld(n, t, c)
		w.names = nil
		for i := 0; i < 5; i++ {
			w.names = append(w.names, fmt.Sprintf("h%d-%c.%d", caseNo, 'a'+i/2, []int{0, 1, 10, 2, 0}[i]))
		}
		st := fakeetcd.New()
		var failing atomic.Bool
		st.Before = func(op, key string) error {
			if op == "put" && failing.Load() && strings.HasPrefix(key, "resp") {
				return errors.New("no leader")
			}
			return nil
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		cli := st.Client()
		stop := service.NewLocator(cli).StartLocate()
		defer stop()
		watched := func() bool { k, ok := st.Watched(cst.EtcdPrefix.LocationSubKey); return ok && k == 1 }
		if !Eventually(watched) {
			w.failf("the locator does not watch")
		}
		addr := Self
		set := func(a string) {
			n.Disc.mu.Lock()
			defer n.Disc.mu.Unlock()
			addr = a
			if a == "" {
				delete(n.Disc.Serv["objectserver"], "self")
			} else {
				n.Disc.Serv["objectserver"]["self"] = a
			}
		}
		defer set(Self)
		ask := func(msg string) { _, err := cli.Put(ctx, cst.EtcdPrefix.LocationSubKey, msg); must(err) }
		no, hit, miss := 0, 0, 0
		var silent []string // keys that must stay without an answer
		search := func(k int, junk bool) {
			type req struct{ name, key string }
			var rs []req
			for ; k > 0; k-- {
				no++
				r := req{rapid.SampledFrom(w.names).Draw(t, "search"), fmt.Sprint("resp", no)}
				if rapid.IntRange(0, 5).Draw(t, "other") == 0 {
					r.name = rapid.SampledFrom([]string{"h.0", w.names[0] + "1", strings.TrimSuffix(w.names[0], ".0"), "", w.names[1] + ".0", "x.-1"}).Draw(t, "unknown")
				}
				rs = append(rs, r)
			}
			if junk {
				no++
				k := fmt.Sprint("resp", no)
				silent = append(silent, k)
				ask(rapid.SampledFrom([]string{"", "#", "x", w.names[0], w.names[0] + "#" + k + "#" + k, "##", k}).Draw(t, "junk"))
				c.Class("malformed")
			}
			for _, r := range rs {
				ask(r.name + "#" + r.key)
			}
			for _, r := range rs {
				if w.objs[r.name] == nil {
					miss++
					silent = append(silent, r.key)
					continue
				}
				hit++
				if !Eventually(func() bool { return len(st.Puts(r.key)) > 0 }) {
					w.failf("the search for %s, which is stored, stays without an answer", r.name)
				}
				want := addr + "#" + r.name[strings.LastIndex(r.name, ".")+1:]
				if addr == "" {
					// not registered yet: its own idea of its address
					want = util.ServerAddress(pool.Config.Port) + want
				}
				if got := st.Puts(r.key); len(got) != 1 || got[0] != want {
					w.failf("the search for %s is answered %q, want %q", r.name, got, want)
				}
			}
			c.Logf("searches %v at %q", rs, addr)
		}
		for i := rapid.IntRange(3, 16).Draw(t, "steps"); i > 0; i-- {
			name := rapid.SampledFrom(w.names).Draw(t, "name")
			switch k := rapid.SampledFrom([]string{"put", "search", "delete", "search", "commit", "upload", "search", "break", "restart", "address", "failing put"}).Draw(t, "step"); k {
			case "put":
				w.put(name, w.content("size"), rapid.Bool().Draw(t, "compress"))
			case "delete":
				w.del(name)
			case "upload", "commit":
				w.pick()
				r := n.Do("POST", "/temp/"+name, nil, "Size", "1")
				w.ups = append(w.ups, &upload{id: string(r.Body), name: name})
				w.patch(len(w.ups)-1, w.content("part"))
				if k == "commit" {
					w.commit(len(w.ups)-1, rapid.Bool().Draw(t, "compress"))
				}
			case "restart":
				// uploads in flight end with the memory
				for len(w.ups) > 0 {
					w.abort(len(w.ups) - 1)
				}
				c.Logf("restart")
				n.Restart()
			case "address":
				set(rapid.SampledFrom([]string{"10.0.0.1:1", "10.0.0.2:2", "", Self}).Draw(t, "address"))
			case "break":
				c.Logf("the watches break")
				st.Break(cst.EtcdPrefix.LocationSubKey)
				if !Eventually(watched) {
					w.failf("the locator does not watch again")
				}
			case "failing put":
				failing.Store(true)
				no++
				k := fmt.Sprint("resp", no)
				ask(name + "#" + k)
				if !Eventually(watched) {
					w.failf("the locator does not watch any more")
				}
				time.Sleep(2 * time.Millisecond)
				failing.Store(false)
			default:
				search(rapid.IntRange(1, 6).Draw(t, "at once"), rapid.IntRange(0, 3).Draw(t, "junk too") == 0)
			}
		}
		search(3, true)
		for _, k := range silent {
			if got := st.Puts(k); len(got) > 0 {
				w.failf("the search %s, for something that is not stored, is answered %q", k, got)
			}
		}
		if hit > 0 && miss > 0 {
			c.NonTrivial()
		}
		for len(w.ups) > 0 {
			w.abort(len(w.ups) - 1)
		}
		stop()
		n.Reset()
	})
}
