package logic_test

import (
	"common/registry"
	"errors"
	"fmt"
	"metaserver/internal/usecase/logic"
	"metaserver/internal/usecase/pool"
	"metaserver/internal/usecase/raftimpl"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verifharness/fakeetcd"
	"verifharness/vh"
)

// far longer than anything has to take
const wait = 30 * time.Second

// event counts the handled changes.
type event struct {
	logic.Registry
	n atomic.Int64
}

func (e *event) OnLeaderChanged(is bool) {
	defer e.n.Add(1)
	e.Registry.OnLeaderChanged(is)
}

// A metadata server is registered once, in the role its raft group gave it last, by its living lease.
func rolesCase(t *rapid.T, c *vh.Case) {
	st := fakeetcd.New()
	var mu sync.Mutex
	failing, slow := map[string]int{}, time.Duration(0)
	st.Before = func(op, _ string) error {
		mu.Lock()
		d, fails := slow, failing[op] > 0
		if fails {
			failing[op]--
		}
		mu.Unlock()
		if d > 0 && (op == "put" || op == "delete") {
			time.Sleep(d)
		}
		if fails {
			return errors.New("etcd is away")
		}
		return nil
	}
	cli := st.Client()
	cfg := &registry.Config{ServerIP: "10.0.0.1", ServerPort: "7", ServerID: "s1", Group: "g", Name: "metaserver"}
	pool.Lifecycle = registry.NewLifecycle(cli, 10*time.Second)
	pool.Registry = registry.NewEtcdRegistry(cli, cfg)
	// as the server starts
	rw := raftimpl.NewDisabledRaft()
	master := rapid.Bool().Draw(t, "starts as master")
	if master {
		pool.Registry.AsMaster()
	} else {
		pool.Registry.AsSlave()
	}
	pool.Lifecycle.Subscribe(pool.Registry.Register)
	done := make(chan struct{})
	lc := pool.Lifecycle
	early := rapid.Bool().Draw(t, "changed before the first lease")
	start := func() { go func() { defer close(done); lc.DeadLoop() }() }
	if !early {
		start()
	}
	ev := &event{Registry: logic.NewRegistry()}
	rw.RegisterLeaderChangedEvent(ev)
	await := func(want string, ok func() string) {
		var s string
		for end := time.Now().Add(wait); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
			if s = ok(); s == "" {
				return
			}
		}
		t.Fatalf("%s: %s", want, s)
	}
	state := func() string {
		role := "slave"
		if master {
			role = "master"
		}
		keys := st.Keys("g/")
		if len(keys) != 1 || keys[0] != "g/registry/metaserver/s1_"+role {
			return fmt.Sprintf("registered as %q, it is %s", keys, role)
		}
		if v, _ := st.Value(keys[0]); v != "10.0.0.1:7" {
			return fmt.Sprintf("registered with address %q", v)
		}
		if lease, alive := st.LeaseOf(keys[0]); !alive || int64(lease) == 0 {
			return fmt.Sprintf("registered by lease %d (alive: %v)", lease, alive)
		} else if live := st.Live(); len(live) != 1 || live[0] != lease {
			return fmt.Sprintf("registered by lease %d, the living are %d", lease, live)
		}
		return ""
	}
	lose := func() {
		for _, id := range st.Live() {
			_, _ = st.Revoke(nil, id)
		}
	}
	changes := 0
	for n := rapid.IntRange(1, 6).Draw(t, "steps"); n > 0; n-- {
		op := rapid.SampledFrom([]string{"lead", "lead and lose", "lose", "put fails", "slow", "delete fails", "flip", "settle"}).Draw(t, "op")
		c.Class(op)
		switch op {
		case "lead":
			master = !master
			changes++
			rw.OnLeaderChanged(master)
		case "lead and lose":
			master = !master
			changes++
			var wg sync.WaitGroup
			wg.Add(1)
			go func() { defer wg.Done(); lose() }()
			rw.OnLeaderChanged(master)
			wg.Wait()
		case "flip":
			// leadership comes and goes at once
			k := rapid.IntRange(2, 5).Draw(t, "flips")
			for i := 0; i < k; i++ {
				master = !master
				changes++
				rw.OnLeaderChanged(master)
			}
		case "lose":
			lose()
		case "put fails", "delete fails":
			mu.Lock()
			failing[op[:len(op)-len(" fails")]] = 1
			mu.Unlock()
		case "slow":
			mu.Lock()
			slow = time.Duration(rapid.SampledFrom([]int{3, 1, 20, 0}).Draw(t, "ms")) * time.Millisecond
			mu.Unlock()
		case "settle":
			if !early {
				await("the registration stays wrong though etcd works", state)
			}
		}
		c.Logf("%s (master: %v)", op, master)
		if early && (n <= 1 || rapid.Bool().Draw(t, "started")) {
			early = false
			start()
		}
		time.Sleep(time.Duration(rapid.SampledFrom([]int{0, 1, 10}).Draw(t, "pause")) * time.Millisecond)
	}
	if early {
		start()
	}
	await("the registration stays wrong though etcd works", state)
	if changes > 0 {
		c.NonTrivial()
	}
	await("changes of leadership are not handled", func() string {
		if n := ev.n.Load(); n != int64(changes) {
			return fmt.Sprintf("%d of %d", n, changes)
		}
		return ""
	})
	// a late change must not come through
	time.Sleep(100 * time.Millisecond)
	if s := state(); s != "" {
		t.Fatalf("after a while: %s", s)
	}
	mu.Lock()
	failing, slow = map[string]int{}, 0
	mu.Unlock()
	if err := pool.Registry.Unregister(); err != nil {
		t.Fatalf("unregister: %v", err)
	}
	_ = lc.Close()
	<-done
	if k := st.Keys("g/"); len(k) > 0 {
		t.Fatalf("a stopped server stays registered as %q", k)
	}
}

func TestVerif_C08_roles(t *testing.T) {
	vh.Check(t, vh.N(60, 1500), "histories of leadership, leases and failing calls of one server", rolesCase)
}

func TestVerif_C08_roles_race(t *testing.T) {
	vh.Check(t, vh.N(40, 800), "histories of leadership, leases and failing calls of one server", rolesCase)
}
