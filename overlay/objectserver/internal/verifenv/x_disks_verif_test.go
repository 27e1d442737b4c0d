package verifenv

import (
	"common/collection/set"
	"common/datasize"
	"fmt"
	"math"
	"net/http"
	"net/http/httptest"
	"objectserver/internal/usecase/component"
	"objectserver/internal/usecase/pool"
	"objectserver/internal/usecase/service"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"pgregory.net/rapid"
	"verifharness/vh"
)

func genFree(t *rapid.T) datasize.DataSize {
	return datasize.DataSize(rapid.OneOf(rapid.SampledFrom([]uint64{0, 0, 1, 2, 100, 1 << 40}), rapid.Uint64Range(0, 1<<20), rapid.Uint64Range(0, 1<<45)).Draw(t, "free"))
}

func TestVerif_O07_choice(t *testing.T) {
	vh.Check(t, vh.N(3000, 200000), "1-6 disks with any free space (often none), which changes between 1-12 choices of the default and of the weighted balancer; the default one takes a disk with the most free space, "+
		"none takes a full disk while another has space, and both leave the list of disks alone; non-trivial: several disks, one of them full, or the same free space twice", func(t *rapid.T, c *vh.Case) {
		first, weighted := component.SpaceFirstBalancer(), component.SpaceWeightedBalancer()
		n := rapid.IntRange(1, 6).Draw(t, "disks")
		var ds []*component.Driver
		fresh := func() {
			ds = nil
			for i := 0; i < n; i++ {
				f := genFree(t)
				ds = append(ds, &component.Driver{MountPoint: fmt.Sprint("/d", i), FreeSpace: f, TotalSpace: f + genFree(t)})
			}
		}
		fresh()
		show := func() string {
			var b strings.Builder
			for _, d := range ds {
				fmt.Fprintf(&b, "%s=%d ", d.MountPoint, uint64(d.FreeSpace))
			}
			return b.String()
		}
		for k := rapid.IntRange(1, 12).Draw(t, "choices"); k > 0; k-- {
			if rapid.IntRange(0, 3).Draw(t, "change") == 0 {
				fresh()
			}
			var max datasize.DataSize
			full, twice := false, false
			frees := map[datasize.DataSize]bool{}
			for _, d := range ds {
				if d.FreeSpace > max {
					max = d.FreeSpace
				}
				full = full || d.FreeSpace == 0
				twice = twice || frees[d.FreeSpace]
				frees[d.FreeSpace] = true
			}
			if n > 1 && (full || twice) {
				c.NonTrivial()
			}
			was := append([]*component.Driver{}, ds...)
			before := show()
			c.Logf("%s", before)
			d, err := first.Select(ds)
			if err != nil || d.FreeSpace != max {
				t.Fatalf("of %s the default takes %+v, %v", before, d, err)
			}
			w, err := weighted.Select(ds)
			if err != nil || w.FreeSpace == 0 && max > 0 {
				t.Fatalf("of %s the weighted one takes %+v, %v; choices before: %s", before, w, err, c.Desc())
			}
			known := false
			for i := range ds {
				known = known || ds[i] == w
				if ds[i] != was[i] {
					t.Fatalf("the list of disks was %s, after a choice it is %s", before, show())
				}
			}
			if !known || show() != before {
				t.Fatalf("the disks were %s, after a choice they are %s, chosen %+v", before, show(), w)
			}
		}
		if _, err := first.Select(nil); err == nil {
			t.Fatal("the default takes one of no disks")
		}
		if _, err := weighted.Select(nil); err == nil {
			t.Fatal("the weighted takes one of no disks")
		}
	})
}

// Choices at the same time, and while the disks are looked at again.
func TestVerif_O07_choice_race(t *testing.T) {
	root := t.TempDir()
	var mounts []string
	for i := 0; i < 4; i++ {
		mounts = append(mounts, filepath.Join(root, fmt.Sprint("d", i)))
		must(os.MkdirAll(mounts[i], 0o700))
	}
	n := &Node{Root: root, Pick: &Pick{}}
	n.useDisks(mounts)
	vh.Check(t, vh.N(30, 1000), "a disk manager (default or weighted) that looks at its disks again while 2-4 clients choose and look for files; each choice is one of the disks, files are found; built with the race detector", func(t *rapid.T, c *vh.Case) {
		b := component.SpaceFirstBalancer()
		if rapid.Bool().Draw(t, "weighted") {
			b = component.SpaceWeightedBalancer()
		}
		dm := component.NewDriverManager(b)
		dm.Update()
		file := fmt.Sprint("f", rapid.IntRange(0, 1000).Draw(t, "file"))
		at := filepath.Join(rapid.SampledFrom(mounts).Draw(t, "at"), file)
		must(os.WriteFile(at, nil, 0o600))
		defer os.Remove(at)
		clients, rounds := rapid.IntRange(2, 4).Draw(t, "clients"), rapid.IntRange(1, 8).Draw(t, "rounds")
		c.Logf("%d clients %d rounds %s", clients, rounds, at)
		c.NonTrivial()
		var wg sync.WaitGroup
		var bad atomic.Value
		for i := 0; i < clients; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < rounds; j++ {
					mp := dm.SelectMountPointFallback("none")
					if !contains(mounts, mp) {
						bad.Store("chosen: " + mp)
					}
					if p, err := dm.FindMountPath(file); err != nil || p != at {
						bad.Store(fmt.Sprintf("%s found at %s, %v", at, p, err))
					}
					got := dm.GetAllMountPoint()
					sort.Strings(got)
					if strings.Join(got, " ") != strings.Join(mounts, " ") {
						bad.Store(fmt.Sprintf("disks %v", got))
					}
				}
			}()
		}
		for j := 0; j < rounds; j++ {
			dm.Update()
		}
		wg.Wait()
		if b := bad.Load(); b != nil {
			t.Fatal(b)
		}
	})
}

func TestVerif_O07_configured(t *testing.T) {
	root := t.TempDir()
	var mounts []string
	for i := 0; i < 6; i++ {
		mounts = append(mounts, filepath.Join(root, fmt.Sprint("d", i)))
		must(os.MkdirAll(mounts[i], 0o700))
	}
	vh.Check(t, vh.N(150, 10000), "any disks of 6, excluded and allowed ones: used are the allowed ones, or if none are given those that are not excluded, and the fallback if there is none; non-trivial: something excluded or allowed", func(t *rapid.T, c *vh.Case) {
		draw := func(l string) []string {
			var r []string
			for _, m := range mounts {
				if rapid.Bool().Draw(t, l) {
					r = append(r, m)
				}
			}
			return r
		}
		there := draw("there")
		n := &Node{Root: root, Pick: &Pick{}}
		if len(there) == 0 {
			there = mounts[:1]
		}
		n.useDisks(there)
		in, ex := draw("allowed"), draw("excluded")
		if rapid.Bool().Draw(t, "none allowed") {
			in = nil
		}
		dm := component.NewDriverManager(component.SpaceFirstBalancer())
		dm.Excludes, dm.Includes = set.OfString(ex), set.OfString(in)
		dm.Update()
		var want []string
		for _, m := range there {
			if len(in) > 0 && contains(in, m) || len(in) == 0 && !contains(ex, m) {
				want = append(want, m)
			}
		}
		c.Logf("%v in %v ex %v", there, in, ex)
		if len(in)+len(ex) > 0 {
			c.NonTrivial()
		}
		got := dm.GetAllMountPoint()
		sort.Strings(got)
		if strings.Join(got, " ") != strings.Join(want, " ") {
			t.Fatalf("disks %v, allowed %v, excluded %v: used are %v", there, in, ex, got)
		}
		mp := dm.SelectMountPointFallback("/fallback")
		if len(want) == 0 && mp != "/fallback" || len(want) > 0 && !contains(want, mp) {
			t.Fatalf("disks %v, allowed %v, excluded %v: chosen is %s", there, in, ex, mp)
		}
	})
}

func TestVerif_O07_shares(t *testing.T) {
	n := node(t, 1)
	var caps [6]atomic.Int64
	var addrs [6]string
	for i := range caps {
		i := i
		s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if r.URL.Path == "/stat" {
				w.Header().Set("Capacity", strconv.FormatInt(caps[i].Load(), 10))
			}
		}))
		defer s.Close()
		addrs[i] = s.Listener.Addr().String()
	}
	vh.Check(t, vh.N(1500, 60000), "a server and 0-6 others with any capacities compute what to move when it joins or leaves: only positive amounts, from servers above the mean (joining) or to those below it (leaving), no server ends further from the mean than before (up to rounding), "+
		"a leaving server has room for all it holds, a joining one gets to the mean or all others do; non-trivial: something is to be moved among at least 2 others", func(t *rapid.T, c *vh.Case) {
		k := rapid.IntRange(0, 6).Draw(t, "others")
		size := func() int64 {
			return int64(rapid.OneOf(rapid.SampledFrom([]uint64{0, 0, 1, 2, 3, 1000, 1 << 40}), rapid.Uint64Range(0, 100), rapid.Uint64Range(0, 1<<30), rapid.Uint64Range(0, 1<<48)).Draw(t, "capacity"))
		}
		serv := map[string]string{"self": Self}
		own := size()
		vals := map[string]int64{}
		total := own
		for i := 0; i < k; i++ {
			v := size()
			caps[i].Store(v)
			serv[fmt.Sprint("p", i)] = addrs[i]
			vals[addrs[i]] = v
			total += v
		}
		n.Disc.mu.Lock()
		n.Disc.Serv["objectserver"] = serv
		n.Disc.mu.Unlock()
		pool.ObjectCap.SubCap(pool.ObjectCap.Capacity())
		pool.ObjectCap.AddCap(own)
		join := rapid.Bool().Draw(t, "join")
		c.Logf("join %v own %d others %v", join, own, vals)
		res, err := service.NewMigrationService(pool.ObjectCap).DeviationValues(join)
		show := fmt.Sprintf("join %v, own %d, others %v: %v, %v", join, own, vals, res, err)
		servers := float64(k)
		if join {
			servers++
		}
		mean := float64(total) / servers
		var sum, over int64
		// float64 arithmetic on sizes
		eps := 1 + float64(k)*(1+float64(total)/(1<<51))
		for a, v := range res {
			have, ok := vals[a]
			if !ok || v <= 0 {
				t.Fatalf("%s: nothing can be moved like that for %s", show, a)
			}
			sum += v
			after := float64(have + v)
			if join {
				after = float64(have - v)
				if float64(have) <= mean-eps {
					t.Fatalf("%s: %s is not above the mean %.1f", show, a, mean)
				}
			} else if float64(have) >= mean+eps {
				t.Fatalf("%s: %s is not below the mean %.1f", show, a, mean)
			}
			if math.Abs(after-mean) > math.Abs(float64(have)-mean)+eps {
				t.Fatalf("%s: %s gets further from the mean %.1f", show, a, mean)
			}
		}
		if len(res) > 0 && k > 1 {
			c.NonTrivial()
		}
		if (err == nil) != (len(res) > 0) {
			t.Fatalf("%s", show)
		}
		for _, v := range vals {
			if x := float64(v) - mean; x > 0 {
				over += int64(x)
			}
		}
		if join {
			if math.Abs(float64(own+sum)-mean) > math.Abs(float64(own)-mean)+eps {
				t.Fatalf("%s: it gets further from the mean %.1f", show, mean)
			}
			want := math.Min(mean-float64(own), float64(over))
			if float64(sum) < want-2*eps {
				t.Fatalf("%s: it could take %.0f", show, want)
			}
		} else if k > 0 && total > 0 && float64(sum) < float64(own)-eps {
			t.Fatalf("%s: there is room for only %d", show, sum)
		}
	})
}

// ---- O04: where a file lies

func TestVerif_O04_disks(t *testing.T) {
	n := node(t, 4)
	vh.Check(t, vh.N(500, 20000), "histories in which files appear, disappear and move between 4 disks, recorded in the index or not; what is found exists, something is found exactly if there is one, and an object "+
		"exists for clients exactly if there is a file; non-trivial: a file moved or has several copies", func(t *rapid.T, c *vh.Case) {
		w := newWorld(n, t, c)
		at := map[string]map[int]bool{}
		for _, x := range w.names {
			at[x] = map[int]bool{}
		}
		path := func(x string, d int) string { return filepath.Join(n.Storage(d), x) }
		for k := rapid.IntRange(1, 25).Draw(t, "steps"); k > 0; k-- {
			x, d := w.name(), rapid.IntRange(0, 3).Draw(t, "disk")
			switch op := rapid.SampledFrom([]string{"add", "find", "remove", "move", "record", "unrecord", "look"}).Draw(t, "op"); op {
			case "add":
				c.Logf("add %s@%d", x, d)
				must(os.WriteFile(path(x, d), []byte(x), 0o600))
				at[x][d] = true
			case "remove":
				c.Logf("remove %s@%d", x, d)
				_ = os.Remove(path(x, d))
				delete(at[x], d)
				service.UnMarkExist(x)
			case "move":
				to := rapid.IntRange(0, 3).Draw(t, "to")
				if at[x][d] {
					c.Logf("move %s %d-%d", x, d, to)
					must(os.Rename(path(x, d), path(x, to)))
					delete(at[x], d)
					at[x][to] = true
					c.NonTrivial()
				}
			case "record":
				c.Logf("record %s@%d", x, d)
				must(pool.PathDB.Put(x, path(x, d)))
			case "unrecord":
				c.Logf("unrecord %s@%d", x, d)
				_ = pool.PathDB.Remove(x, path(x, d))
			case "look":
				r := n.Do("HEAD", "/objects/"+x, nil)
				if (r.Status == 200) != (len(at[x]) > 0) {
					w.failf("%s is on disks %v, exists: %d", x, at[x], r.Status)
				}
				continue
			}
			if len(at[x]) > 1 {
				c.NonTrivial()
			}
			if rapid.Bool().Draw(t, "find") {
				got, ok := service.FindRealStoragePath(x)
				found := false
				for d := range at[x] {
					found = found || got == path(x, d)
				}
				c.Logf("find %s", x)
				if ok != (len(at[x]) > 0) || ok && !found {
					w.failf("%s is on disks %v, found %q, %v", x, at[x], got, ok)
				}
			}
		}
	})
}
