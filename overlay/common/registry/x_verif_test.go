package registry_test

import (
	"common/registry"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
	clientv3 "go.etcd.io/etcd/client/v3"
	"pgregory.net/rapid"
	"verifharness/fakeetcd"
	"verifharness/vh"
)

func TestMain(m *testing.M) {
	logrus.SetOutput(io.Discard)
	os.Exit(m.Run())
}

type inst struct {
	serv, id, role, ip string
	reg                *registry.EtcdRegistry
	lease              clientv3.LeaseID
}

var services = []string{"meta", "metax", "meta_x", "object"}
var ids = []string{"a", "ab", "node_1", "node_2", "n-2", "x_y_z", "m_a"}

type world struct {
	t     *rapid.T
	st    *fakeetcd.Store
	group string
	live  map[string]*inst // service/id
	n     int
}

func (w *world) step(c *vh.Case) {
	t := w.t
	serv := rapid.SampledFrom(services).Draw(t, "serv")
	id := rapid.SampledFrom(ids).Draw(t, "id")
	k := serv + "/" + id
	cur := w.live[k]
	setRole := func(i *inst, role string) {
		i.role = role
		switch role {
		case "master":
			i.reg.AsMaster()
		case "slave":
			i.reg.AsSlave()
		}
	}
	switch op := rapid.IntRange(0, 5).Draw(t, "op"); {
	case cur == nil:
		w.n++
		l, _ := w.st.Grant(context.Background(), 10)
		cur = &inst{serv: serv, id: id, ip: fmt.Sprintf("10.0.0.%d", w.n), lease: l.ID}
		cfg := registry.Config{ServerIP: cur.ip, ServerID: id, ServerPort: "80", Group: w.group, Name: serv}
		cur.reg = registry.NewEtcdRegistry(w.st.Client(), &cfg)
		setRole(cur, rapid.SampledFrom([]string{"", "master", "slave"}).Draw(t, "role"))
		cur.reg.Register(cur.lease)
		w.live[k] = cur
		c.Logf("register %s_%s", k, cur.role)
	case op == 0:
		c.Logf("unregister %s", k)
		if err := cur.reg.Unregister(); err != nil {
			t.Fatal(err)
		}
		delete(w.live, k)
	case op == 1:
		c.Logf("lease of %s ends", k)
		_, _ = w.st.Revoke(context.Background(), cur.lease)
		delete(w.live, k)
	case op <= 3 && cur.role != "":
		role := map[string]string{"master": "slave", "slave": "master"}[cur.role]
		c.Logf("%s becomes %s", k, role)
		if err := cur.reg.Unregister(); err != nil {
			t.Fatal(err)
		}
		setRole(cur, role)
		cur.reg.Register(cur.lease)
	default:
		c.Logf("%s registers again", k)
		cur.reg.Register(cur.lease)
	}
}

func pairs(m map[string]string) string {
	var s []string
	for k, v := range m {
		s = append(s, k+"="+v)
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// differs tells how the view of a service differs from the registered instances.
func (w *world) differs(d *registry.EtcdDiscovery, reg *registry.EtcdRegistry, serv string) string {
	var addrs []string
	all, masters, slaves := map[string]string{}, map[string]string{}, map[string]string{}
	for _, i := range w.live {
		if i.serv != serv {
			continue
		}
		a := i.ip + ":80"
		addrs = append(addrs, a)
		all[i.id] = a
		if i.role == "slave" {
			slaves[i.id] = a
		} else {
			masters[i.id] = a
		}
	}
	sort.Strings(addrs)
	eq := func(what, got, want string) string {
		if got == want {
			return ""
		}
		return fmt.Sprintf("%s of %s: got [%s] want [%s]", what, serv, got, want)
	}
	list := func(s []string) string {
		sort.Strings(s)
		return strings.Join(s, " ")
	}
	var res []string
	if d != nil {
		res = append(res,
			eq("services", list(d.GetServices(serv)), list(addrs)),
			eq("count", fmt.Sprint(d.GetServiceCount(serv)), fmt.Sprint(len(addrs))),
			eq("mapping", pairs(d.GetServiceMapping(serv)), pairs(all)),
			eq("masters", pairs(d.GetServiceMappingWith(serv, true)), pairs(masters)),
			eq("slaves", pairs(d.GetServiceMappingWith(serv, false)), pairs(slaves)))
		for _, id := range ids {
			a, ok := d.GetService(serv, id)
			res = append(res, eq("lookup "+id, fmt.Sprint(a, ok), fmt.Sprint(all[id], all[id] != "")))
		}
	}
	if reg != nil {
		res = append(res,
			eq("registry services", list(reg.GetServices(serv)), list(addrs)),
			eq("registry mapping", pairs(reg.GetServiceMapping(serv)), pairs(all)))
		for _, id := range ids {
			a, ok := reg.GetService(serv, id)
			res = append(res, eq("registry lookup "+id, fmt.Sprint(a, ok), fmt.Sprint(all[id], all[id] != "")))
		}
	}
	for _, r := range res {
		if r != "" {
			return r
		}
	}
	return ""
}

var found atomic.Bool // a view stayed wrong, the rest is about making the history small

func (w *world) quiet(d *registry.EtcdDiscovery, reg *registry.EtcdRegistry, limit time.Duration) {
	if found.Load() {
		limit = 3 * time.Second
	}
	end := time.Now().Add(limit)
	for _, s := range services {
		for {
			diff := w.differs(d, reg, s)
			if diff == "" {
				break
			}
			if time.Now().After(end) {
				found.Store(true)
				w.t.Fatalf("group %q: %s", w.group, diff)
			}
			time.Sleep(200 * time.Microsecond)
		}
	}
}

func run(t *rapid.T, c *vh.Case, trouble bool) {
	w := &world{t: t, st: fakeetcd.New(), live: map[string]*inst{}}
	w.group = rapid.SampledFrom([]string{"goodfs", "good_fs", "g"}).Draw(t, "group")
	for i := rapid.IntRange(0, 6).Draw(t, "before"); i > 0; i-- {
		w.step(c)
	}
	c.Logf("discovery starts")
	var mu sync.Mutex
	failGets := 0
	breaking := trouble && rapid.IntRange(0, 2).Draw(t, "trouble") < 2
	if trouble && !breaking {
		failGets = rapid.IntRange(0, 2).Draw(t, "failGets")
	}
	gap := rapid.IntRange(0, 3).Draw(t, "gap")
	inGap := make(chan string, len(services))
	goOn := make(chan struct{})
	first := map[string]bool{}
	w.st.Before = func(op, key string) error {
		if op == "get" {
			mu.Lock()
			defer mu.Unlock()
			if failGets > 0 {
				failGets--
				return errors.New("no leader")
			}
		}
		return nil
	}
	w.st.After = func(op, key string) {
		if op != "get" || gap == 0 || failGets > 0 {
			return
		}
		mu.Lock()
		seen := first[key]
		first[key] = true
		mu.Unlock()
		if !seen {
			inGap <- key
			<-goOn
		}
	}
	hadFail := failGets > 0
	if hadFail {
		gap = 0
	}
	d := registry.NewEtcdDiscovery(w.st.Client(), &registry.Config{ServerIP: "10.9.9.9", ServerPort: "99", ServerID: "self", Group: w.group, Name: "admin", Services: services})
	defer d.Close()
	if gap > 0 {
		// all services are fetched but none is watched yet
		for range services {
			<-inGap
		}
		for i := 0; i < gap; i++ {
			c.Logf("between fetch and watch:")
			w.step(c)
		}
		c.NonTrivial()
	}
	close(goOn)
	// readers at the same time, which the runtime stops if the list is not guarded
	stopRead, readEnd := make(chan struct{}), make(chan struct{})
	go func() {
		defer close(readEnd)
		for {
			select {
			case <-stopRead:
				return
			default:
			}
			for _, s := range services {
				d.GetServiceCount(s)
				d.GetServices(s)
				d.GetServiceMappingWith(s, true)
			}
			time.Sleep(20 * time.Microsecond)
		}
	}()
	defer func() { close(stopRead); <-readEnd }()
	breaks := 0
	for i := rapid.IntRange(0, 12).Draw(t, "after"); i > 0; i-- {
		if breaking && breaks == 0 && rapid.IntRange(0, 3).Draw(t, "break") == 0 {
			breaks++
			w.quiet(d, nil, 20*time.Second)
			w.watched()
			c.Logf("watches break")
			w.st.BreakWatches()
		}
		w.step(c)
		if len(w.live) > 1 {
			c.NonTrivial()
		}
		if !trouble && rapid.Bool().Draw(t, "check") {
			w.quiet(d, nil, 10*time.Second)
		}
	}
	cfg := registry.Config{ServerIP: "10.9.9.9", ServerPort: "99", ServerID: "self", Group: w.group, Name: "admin"}
	reg := registry.NewEtcdRegistry(w.st.Client(), &cfg)
	mu.Lock()
	failGets = 0
	mu.Unlock()
	w.st.After = nil
	w.quiet(d, reg, 20*time.Second)
	w.watched()
	w.quiet(d, reg, 20*time.Second)
}

// watched waits until all services are watched and all changes handed over
func (w *world) watched() {
	for end := time.Now().Add(40 * time.Second); ; time.Sleep(time.Millisecond) {
		if ok, n := w.st.Caught(); ok && n >= len(services) {
			return
		}
		if time.Now().After(end) {
			w.t.Fatalf("the services are not watched")
		}
	}
}

func TestVerif_C07_discovery(t *testing.T) {
	vh.Check(t, vh.N(1500, 15000), "histories of register / unregister / lease end / role change of instances of services and ids that are prefixes of one another or contain underscores, before, between fetch and watch, and after a discovery starts; its view and the registry's compared with the live instances; non-trivial: changes between fetch and watch, or two or more live instances", func(t *rapid.T, c *vh.Case) {
		run(t, c, false)
	})
}

func TestVerif_C07_troubles(t *testing.T) {
	// each case waits for the retry pause of 2 s, so they run side by side
	vh.Check(t, vh.N(2, 12), "32 worlds at once, as above, whose first fetches fail or whose watches break once in the middle; non-trivial as above", func(t *rapid.T, c *vh.Case) {
		seeds := rapid.SliceOfN(rapid.IntRange(1, 1<<30), 32, 32).Draw(t, "worlds")
		errs := make([]error, len(seeds))
		descs := make([]string, len(seeds))
		var wg sync.WaitGroup
		type end struct {
			desc string
			err  any
		}
		gen := rapid.Custom(func(t *rapid.T) (e end) {
			sub := vh.Sub()
			defer func() {
				// Example would try again after a failure
				if e.err = recover(); fmt.Sprintf("%T", e.err) == "rapid.invalidData" {
					panic(e.err)
				}
				e.desc = sub.Desc()
			}()
			run(t, sub, true)
			return
		})
		for i := range seeds {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						errs[i] = fmt.Errorf("%v", r)
					}
				}()
				e := gen.Example(seeds[i])
				descs[i] = e.desc
				if e.err != nil {
					errs[i] = fmt.Errorf("%v\n%s", e.err, e.desc)
				}
			}(i)
		}
		wg.Wait()
		c.NonTrivial()
		for i := range seeds {
			c.Logf("%s", descs[i])
			if errs[i] != nil {
				t.Fatalf("world %d: %v", seeds[i], errs[i])
			}
		}
	})
}

// a discovery is asked by many while it starts and while instances come and go
func TestVerif_C07_startup_race(t *testing.T) {
	vh.Check(t, vh.N(60, 600), "a discovery of up to 9 services starts while instances come and go and readers ask it, with the race detector on; then its view is compared; non-trivial: 3 or more services with live instances", func(t *rapid.T, c *vh.Case) {
		w := &world{t: t, st: fakeetcd.New(), group: "g", live: map[string]*inst{}}
		for n := rapid.IntRange(0, 12).Draw(t, "before"); n > 0; n-- {
			w.step(c)
		}
		cfg := registry.Config{ServerIP: "10.9.9.9", ServerPort: "99", ServerID: "self", Group: w.group, Name: "admin", Services: services}
		for n := rapid.IntRange(0, 5).Draw(t, "more services"); n > 0; n-- {
			cfg.Services = append(cfg.Services[:len(cfg.Services):len(cfg.Services)], fmt.Sprint("other", n))
		}
		d := registry.NewEtcdDiscovery(w.st.Client(), &cfg)
		defer d.Close()
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					for _, s := range cfg.Services {
						d.GetServices(s)
						d.GetServiceMapping(s)
						d.GetServiceMappingWith(s, true)
						d.GetService(s, "a")
						d.GetServiceCount("admin")
					}
				}
			}()
		}
		for n := rapid.IntRange(0, 10).Draw(t, "during"); n > 0; n-- {
			w.step(c)
		}
		close(stop)
		wg.Wait()
		with := map[string]bool{}
		for _, i := range w.live {
			with[i.serv] = true
		}
		if len(with) >= 3 {
			c.NonTrivial()
		}
		if got := d.GetServices("admin"); len(got) != 1 || got[0] != "10.9.9.9:99" {
			t.Fatalf("own service: %v", got)
		}
		w.quiet(d, nil, 20*time.Second)
	})
}
