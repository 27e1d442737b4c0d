package registry_test

import (
	"common/registry"
	"errors"
	"flag"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	clientv3 "go.etcd.io/etcd/client/v3"
	"pgregory.net/rapid"
	"verifharness/fakeetcd"
	"verifharness/vh"
)

// far longer than anything has to take
const wait = 40 * time.Second

type lifeStep struct {
	op    string
	n     int
	pause time.Duration
}

type life struct {
	start map[string]int // calls that fail at the start
	steps []lifeStep
	end   string
}

// run a server's life, whether it was registered when it had to be.
func (l *life) run(id int) error {
	st := fakeetcd.New()
	var mu sync.Mutex
	failing := map[string]int{}
	for k, n := range l.start {
		failing[k] = n
	}
	st.Before = func(op, _ string) error {
		mu.Lock()
		defer mu.Unlock()
		if failing[op] > 0 {
			failing[op]--
			return errors.New("etcd is away")
		}
		return nil
	}
	fail := func(op string, n int) {
		mu.Lock()
		defer mu.Unlock()
		failing[op] = n
	}
	cli := st.Client()
	cfg := &registry.Config{ServerIP: "10.0.0.1", ServerPort: fmt.Sprint(id), ServerID: fmt.Sprint("s", id), Group: "g", Name: "serv"}
	lc := registry.NewLifecycle(cli, 10*time.Second)
	reg := registry.NewEtcdRegistry(cli, cfg)
	var notified atomic.Int64
	lc.Subscribe(func(id clientv3.LeaseID) { notified.Store(int64(id)) })
	lc.Subscribe(reg.Register)
	done := make(chan struct{})
	go func() { defer close(done); lc.DeadLoop() }()
	lose := func() {
		for _, id := range st.Live() {
			_, _ = st.Revoke(nil, id)
		}
	}
	// what the server says its lease is, -1 if it does not answer
	said := func() clientv3.LeaseID {
		ch := make(chan clientv3.LeaseID, 1)
		go func() { ch <- lc.Lease() }()
		select {
		case id := <-ch:
			return id
		case <-time.After(wait):
			return -1
		}
	}
	state := func() string {
		keys := st.Keys("g/")
		if len(keys) != 1 || keys[0] != fmt.Sprint("g/registry/serv/s", id) {
			return fmt.Sprintf("registered as %q", keys)
		}
		if v, _ := st.Value(keys[0]); v != fmt.Sprint("10.0.0.1:", id) {
			return fmt.Sprintf("registered with address %q", v)
		}
		lease, alive := st.LeaseOf(keys[0])
		if !alive || int64(lease) != notified.Load() {
			return fmt.Sprintf("registered by lease %d (alive: %v), told to others %d", lease, alive, notified.Load())
		}
		if id := said(); lease != id {
			return fmt.Sprintf("registered by lease %d (alive: %v), the server's is %d", lease, alive, id)
		}
		return ""
	}
	await := func(d time.Duration, want string, ok func() string) error {
		var s string
		for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(3 * time.Millisecond) {
			if s = ok(); s == "" {
				return nil
			}
		}
		return fmt.Errorf("%s: %s", want, s)
	}
	for _, s := range l.steps {
		time.Sleep(s.pause)
		switch s.op {
		case "lose":
			lose()
		case "settle":
			if err := await(wait, "the server stays unregistered though etcd works", state); err != nil {
				return err
			}
		default:
			fail(s.op, s.n)
			lose()
		}
	}
	if err := await(wait, "the server stays unregistered though etcd works", state); err != nil {
		return err
	}
	switch l.end {
	case "close first":
		_ = lc.Close()
		_ = reg.Unregister()
	case "retrying":
		// it stops while it tries to register
		fail("put", 1<<30)
		lose()
		time.Sleep(20 * time.Millisecond)
		_ = reg.Unregister()
		_ = lc.Close()
		fail("put", 0)
	case "retrying long":
		// as above, but its lease lives on for a while
		fail("put", 1<<30)
		lose()
		time.Sleep(20 * time.Millisecond)
		_ = reg.Unregister()
		fail("put", 0)
		time.Sleep(1500 * time.Millisecond)
		if k := st.Keys("g/"); len(k) > 0 {
			return fmt.Errorf("an unregistered server is registered again: %q", k)
		}
		_ = lc.Close()
	default:
		_ = reg.Unregister()
		_ = lc.Close()
	}
	select {
	case <-done:
	case <-time.After(wait):
		return errors.New("a stopped server goes on keeping its lease")
	}
	gone := func() string {
		if k := st.Keys("g/"); len(k) > 0 {
			return fmt.Sprintf("still %q", k)
		}
		return ""
	}
	if err := await(wait, "a stopped server stays registered", gone); err != nil {
		return err
	}
	time.Sleep(1200 * time.Millisecond)
	if s := gone(); s != "" {
		return fmt.Errorf("a stopped server is registered again: %s", s)
	}
	return nil
}

var (
	lived  sync.Map    // results of lives
	failed atomic.Bool // whether one of them failed, the rest is about making it small
)

type result struct{ err error }

func (l *life) String() string {
	return fmt.Sprintf("failing at the start %v, steps %v, end %q", l.start, l.steps, l.end)
}

// all runs lives at once; one that failed before fails again.
func all(lives []*life) []error {
	errs := make([]error, len(lives))
	var wg sync.WaitGroup
	for i := range lives {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			if r, ok := lived.Load(lives[i].String()); ok && (failed.Load() || r.(result).err != nil) {
				errs[i] = r.(result).err
				return
			}
			if errs[i] = lives[i].run(i + 1); errs[i] != nil {
				failed.Store(true)
			}
			lived.Store(lives[i].String(), result{errs[i]})
		}()
	}
	wg.Wait()
	return errs
}

// smaller lives which may fail for the same reason, the smallest first.
func (l *life) smaller() (r []*life) {
	for _, steps := range append([][]lifeStep{nil}, singles(l.steps)...) {
		for _, end := range []string{"", l.end} {
			for _, start := range []map[string]int{{}, l.start} {
				r = append(r, &life{start: start, steps: steps, end: end})
			}
		}
	}
	return
}

func singles(s []lifeStep) (r [][]lifeStep) {
	for i := range s {
		r = append(r, s[i:i+1])
	}
	return
}

// Servers stay registered by a living lease whatever fails for a while, and not longer than they run.
func TestVerif_C08_stays_registered(t *testing.T) {
	const batch = 40
	// smaller lives are found by the check
	must(flag.Set("rapid.shrinktime", "1ms"))
	vh.Check(t, vh.N(1, 40), "lives in which calls of etcd fail and leases are lost", func(t *rapid.T, c *vh.Case) {
		lives := make([]*life, batch)
		for i := range lives {
			l := &life{start: map[string]int{}}
			lives[i] = l
			if k := rapid.SampledFrom([]string{"", "put", "grant", "keepalive"}).Draw(t, "start"); k != "" {
				l.start[k] = 1
				c.Class(k + " fails at the start")
			}
			for n := rapid.IntRange(1, 5).Draw(t, "steps"); n > 0; n-- {
				s := lifeStep{op: rapid.SampledFrom([]string{"put", "lose", "settle", "grant", "keepalive"}).Draw(t, "op"), n: rapid.IntRange(1, 2).Draw(t, "times"),
					pause: time.Duration(rapid.SampledFrom([]int{0, 10, 1, 100}).Draw(t, "pause")) * time.Millisecond}
				l.steps = append(l.steps, s)
				c.Class(s.op)
			}
			l.end = rapid.SampledFrom([]string{"", "retrying", "close first", "retrying long"}).Draw(t, "end")
			c.Logf("%d: %v %v %s", i, l.start, l.steps, l.end)
			c.NonTrivial()
		}
		for i, err := range all(lives) {
			if err == nil {
				continue
			}
			small := lives[i].smaller()
			for k, e := range all(small) {
				if e != nil {
					t.Fatalf("server with calls %v: %v", small[k], e)
				}
			}
			t.Fatalf("server with calls %v: %v", lives[i], err)
		}
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
