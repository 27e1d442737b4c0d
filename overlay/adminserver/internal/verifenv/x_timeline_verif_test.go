package verifenv

import (
	"adminserver/internal/usecase/db"
	"common/cst"
	"common/system"
	"common/util"
	"context"
	"errors"
	"fmt"
	"math"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verifharness/fakeetcd"
	"verifharness/vh"
)

// The n-th report of a server: n is its load.
func report(n int) string {
	i := system.ZeroInfo()
	i.CpuStatus.UsedPercent = float64(n)
	i.MemStatus.All = 10000
	i.MemStatus.Used = uint64(n)
	bt, err := util.EncodeMsgp(i)
	must(err)
	return string(bt)
}

const keeps = 59

// contiguous checks that the timeline is a run of the server's reports, gives the last one.
func contiguous(what string, cpu, mem []*db.TimeStat, outages bool) (int, error) {
	if len(cpu) != len(mem) || len(cpu) > keeps {
		return 0, fmt.Errorf("%s: %d of cpu, %d of memory", what, len(cpu), len(mem))
	}
	last := 0
	for i := range cpu {
		n := int(cpu[i].Percent)
		if want := math.Ceil(float64(n)*100/10000) / 100; mem[i].Percent != want {
			return 0, fmt.Errorf("%s: report %d with memory %v, not %v", what, n, mem[i].Percent, want)
		}
		if i > 0 && n != last+1 && !(outages && n > last) {
			return 0, fmt.Errorf("%s: report %d follows %d", what, n, last)
		}
		if i > 0 && cpu[i].Time.Before(cpu[i-1].Time) {
			return 0, fmt.Errorf("%s: report %d was before %d", what, n, last)
		}
		last = n
	}
	return last, nil
}

func timelines(t *rapid.T, c *vh.Case, racing, outages bool) {
	etcd := fakeetcd.New()
	services := []string{APIName, MetaName, DataName}
	type server struct {
		service, id, key string
		n                int
	}
	var servers []*server
	for i := rapid.IntRange(2, 5).Draw(t, "servers"); i > 0; i-- {
		s := &server{service: services[i%3], id: fmt.Sprint("s", i%2, "-", i)}
		s.key = cst.EtcdPrefix.FmtSystemInfo(Group, s.service, s.id)
		servers = append(servers, s)
	}
	put := func(s *server) {
		s.n++
		_, err := etcd.Put(context.Background(), s.key, report(s.n))
		must(err)
	}
	// servers of others are none of its business
	other := cst.EtcdPrefix.FmtSystemInfo(Group+"2", MetaName, "x")
	other2 := cst.EtcdPrefix.FmtSystemInfo(Group, MetaName+"2", "x")
	for _, k := range []string{other, other2} {
		_, err := etcd.Put(context.Background(), k, report(9000))
		must(err)
	}
	if rapid.IntRange(0, 2).Draw(t, "unreadable") == 1 {
		// it is read before all others of its service
		_, err := etcd.Put(context.Background(), cst.EtcdPrefix.FmtSystemInfo(Group, rapid.SampledFrom(services).Draw(t, "unreadable of"), "0"), "\xc1")
		must(err)
		c.Class("unreadable report at first")
	}
	first := map[*server]int{}
	for _, s := range servers {
		for i := rapid.IntRange(0, 3).Draw(t, "before"); i > 0; i-- {
			put(s)
		}
		// only the last of them can be known
		first[s] = s.n
	}
	between := rapid.IntRange(0, 3).Draw(t, "between reading and watching")
	var once sync.Map
	failing := outages && rapid.IntRange(0, 2).Draw(t, "fails") == 1 // the first read
	etcd.Before = func(op, key string) error {
		if op == "get" && failing {
			if _, seen := once.LoadOrStore("fail "+key, true); !seen {
				return errors.New("no etcd")
			}
		}
		return nil
	}
	etcd.After = func(op, key string) {
		if op != "get" || between == 0 {
			return
		}
		if _, seen := once.LoadOrStore(key, true); seen {
			return
		}
		for _, s := range servers {
			if cst.EtcdPrefix.FmtSystemInfo(Group, s.service, "") == key {
				for i := 0; i < between; i++ {
					put(s)
				}
			}
		}
	}
	if failing {
		between = 0
		c.Class("etcd fails at first")
	}
	cli := etcd.Client()
	sdb := db.NewServerStatDB(db.ServerStatCli{Watcher: cli, KV: cli}, Group, services)
	defer func() { _ = sdb.Close() }()
	read := func() error {
		for _, sv := range services {
			for id, tl := range sdb.GetTimeline(sv) {
				if _, err := contiguous(sv+" "+id, tl.CPUTimeline(), tl.MEMTimeline(), true); err != nil {
					return err
				}
			}
		}
		return nil
	}
	complete := func() (err error) {
		for _, s := range servers {
			if s.n == 0 {
				continue
			}
			tl := sdb.GetTimeline(s.service)[s.id]
			if tl == nil {
				return fmt.Errorf("no timeline of %s, which reported %d", s.key, s.n)
			}
			cpu := tl.CPUTimeline()
			last, err := contiguous(s.key, cpu, tl.MEMTimeline(), failing)
			if err != nil {
				return err
			}
			seen := s.n
			if first[s] > 0 {
				seen = s.n - first[s] + 1
			}
			want := seen
			if want > keeps {
				want = keeps
			}
			if last != s.n || !failing && len(cpu) != want {
				return fmt.Errorf("%s reported %d (from %d on): %d in the timeline, the last is %d", s.key, s.n, first[s], len(cpu), last)
			}
		}
		return nil
	}
	settle := func() {
		var err error
		for i := 0; i < 20000; i++ {
			if err = complete(); err == nil {
				return
			}
			// one that knows of what it must not never gets better, one that is late does
			time.Sleep(time.Millisecond)
		}
		t.Fatalf("%v", err)
	}
	// it must watch before more is reported
	eventually("watching of the reports", func() bool {
		_, n := etcd.Caught()
		return n == len(services)
	})
	settle()
	for round := rapid.IntRange(1, 4).Draw(t, "rounds"); round > 0; round-- {
		var stop atomic.Bool
		var wg, readers sync.WaitGroup
		var bad atomic.Value
		if racing {
			for i := 0; i < 3; i++ {
				readers.Add(1)
				go func() {
					defer readers.Done()
					for !stop.Load() {
						if err := read(); err != nil {
							bad.Store(err.Error())
						}
					}
				}()
			}
		}
		for _, s := range servers {
			s := s
			n := rapid.SampledFrom([]int{40, 3, 1, 0, 70, 130}).Draw(t, "reports")
			if racing && n > 70 {
				n = 70
			}
			if s.n+n > keeps {
				c.NonTrivial()
				c.Class("more reports than kept")
			}
			c.Logf("%s: %d after %d", s.key, n, s.n)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for ; n > 0; n-- {
					put(s)
				}
			}()
		}
		wg.Wait()
		stop.Store(true)
		readers.Wait()
		if e := bad.Load(); e != nil {
			t.Fatalf("%v", e)
		}
		settle()
		then := rapid.SampledFrom([]string{"", "remove", "garbage"}).Draw(t, "then")
		if outages && rapid.Bool().Draw(t, "lose") {
			then = "lose"
		}
		switch then {
		case "remove":
			// a server that ends takes its report with it, its history stays
			s := rapid.SampledFrom(servers).Draw(t, "which")
			_, err := etcd.Delete(context.Background(), s.key)
			must(err)
			c.Class("report removed")
		case "lose":
			etcd.BreakWatches()
			failing = true // from now on reports may be missed
			c.Class("watches lost")
		case "garbage":
			s := rapid.SampledFrom(servers).Draw(t, "which")
			_, err := etcd.Put(context.Background(), s.key, "\xc1")
			must(err)
			c.Class("unreadable report")
		}
	}
	if len(sdb.GetTimeline("nothing")) != 0 || len(sdb.GetTimeline(MetaName+"2")) != 0 || sdb.GetTimeline(MetaName)["x"] != nil {
		t.Fatalf("timelines of other servers")
	}
}

// Timelines hold the last reports of every server in order, none missing.
func TestVerif_D04_timelines(t *testing.T) {
	vh.Check(t, vh.N(150, 4000), "a server reports more often than is kept", func(t *rapid.T, c *vh.Case) { timelines(t, c, false, false) })
}

// When etcd is away for a while they go on after it, in order.
func TestVerif_D04_outages(t *testing.T) {
	vh.Check(t, vh.N(6, 120), "a server reports more often than is kept", func(t *rapid.T, c *vh.Case) { timelines(t, c, false, true) })
}

// The same while they are read all the time.
func TestVerif_D04_timelines_race(t *testing.T) {
	vh.Check(t, vh.N(15, 400), "a server reports more often than is kept", func(t *rapid.T, c *vh.Case) { timelines(t, c, true, false) })
}
