package util_test

import (
	"common/util"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
	"verifharness/vh"
)

func TestMain(m *testing.M) {
	logrus.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

func pause(n int) {
	for i := 0; i < n%8; i++ {
		runtime.Gosched()
	}
	if n >= 8 {
		time.Sleep(time.Duration(n-7) * 20 * time.Microsecond)
	}
}

func TestVerif_C04_errorsSeen(t *testing.T) {
	vh.Check(t, vh.N(6000, 60000), "1-8 tasks that each pause, then succeed, report an error or panic; WaitUntilError of a plain or limited group compared with what the tasks did; repeated because the outcome is a race; non-trivial: some task fails", func(t *rapid.T, c *vh.Case) {
		n := rapid.IntRange(1, 8).Draw(t, "n")
		type task struct{ pre, kind, post int }
		ts := make([]task, n)
		fail := false
		for i := range ts {
			ts[i] = task{rapid.IntRange(0, 12).Draw(t, "pre"), rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "kind"), rapid.IntRange(0, 3).Draw(t, "post")}
			fail = fail || ts[i].kind > 0
		}
		limit := rapid.IntRange(0, 4).Draw(t, "limit")
		waitLate := rapid.Bool().Draw(t, "late")
		c.Logf("limit %d late %v tasks %v", limit, waitLate, ts)
		if fail {
			c.NonTrivial()
		}
		var dg util.DoneGroup
		if limit > 0 {
			dg = util.LimitDoneGroup(limit)
		} else {
			dg = util.NewDoneGroup()
		}
		var started, finished atomic.Int32
		reported := sync.Map{}
		for i := range ts {
			i := i
			dg.Todo()
			go func() {
				defer dg.Done()
				started.Add(1)
				pause(ts[i].pre)
				msg := fmt.Sprintf("task-%d-failed", i)
				if ts[i].kind > 0 {
					reported.Store(msg, true)
				}
				finished.Add(1)
				switch ts[i].kind {
				case 1:
					dg.Error(errors.New(msg))
				case 2:
					panic(msg)
				}
				pause(ts[i].post)
			}()
		}
		if waitLate {
			pause(20)
		}
		err := dg.WaitUntilError()
		if err == nil {
			if int(finished.Load()) != n {
				t.Fatalf("nil although only %d of %d tasks are finished", finished.Load(), n)
			}
			if fail {
				t.Fatalf("nil although tasks failed: %v (kind 1: Error, 2: panic)", ts)
			}
			return
		}
		if !fail {
			t.Fatalf("%v although no task failed", err)
		}
		if _, ok := reported.Load(err.Error()); !ok {
			t.Fatalf("returned error %q is none of those reported", err)
		}
		dg.Wait()
		if int(finished.Load()) != n {
			t.Fatalf("Wait returned although only %d of %d tasks are finished", finished.Load(), n)
		}
	})
}

func TestVerif_C04_limit(t *testing.T) {
	vh.Check(t, vh.N(1500, 15000), "3-30 tasks on a group limited to 1-5, some panicking; counts tasks running at once; non-trivial: more tasks than the limit", func(t *rapid.T, c *vh.Case) {
		limit := rapid.IntRange(1, 5).Draw(t, "limit")
		n := rapid.IntRange(3, 30).Draw(t, "n")
		pauses := rapid.SliceOfN(rapid.IntRange(0, 9), n, n).Draw(t, "pauses")
		// now and then tasks take really long
		long := rapid.IntRange(0, 49).Draw(t, "long") == 23
		if long && n > limit+3 {
			n = limit + 3
		}
		pan := rapid.SliceOfN(rapid.SampledFrom([]bool{false, false, false, true}), n, n).Draw(t, "panics")
		c.Logf("limit %d n %d %v %v", limit, n, pauses, pan)
		if n > limit {
			c.NonTrivial()
		}
		dg := util.LimitDoneGroup(limit)
		var cur, most, ran atomic.Int32
		for i := 0; i < n; i++ {
			i := i
			dg.Todo()
			go func() {
				defer dg.Done()
				defer cur.Add(-1)
				v := cur.Add(1)
				for {
					m := most.Load()
					if v <= m || most.CompareAndSwap(m, v) {
						break
					}
				}
				ran.Add(1)
				pause(pauses[i])
				if long {
					time.Sleep(40 * time.Millisecond)
				}
				if pan[i] {
					panic("x")
				}
			}()
		}
		dg.Wait()
		if int(most.Load()) > limit {
			t.Fatalf("%d tasks ran at once, limit %d", most.Load(), limit)
		}
		if int(ran.Load()) != n {
			t.Fatalf("%d of %d tasks ran", ran.Load(), n)
		}
	})
}

// A group whose tasks all succeed never reports, also when Errors/WaitError are used by hand.
func TestVerif_C04_errorsStream(t *testing.T) {
	vh.Check(t, vh.N(1500, 15000), "tasks reporting through Errors() to a reader of WaitError(), closed after all are done; every reported error arrives exactly once; non-trivial: two or more errors", func(t *rapid.T, c *vh.Case) {
		n := rapid.IntRange(1, 10).Draw(t, "n")
		cnt := rapid.SliceOfN(rapid.IntRange(0, 3), n, n).Draw(t, "errs")
		c.Logf("%v", cnt)
		want := map[string]int{}
		for i, k := range cnt {
			for j := 0; j < k; j++ {
				want[fmt.Sprint(i, "/", j)]++
			}
		}
		if len(want) > 1 {
			c.NonTrivial()
		}
		dg := util.NewDoneGroup()
		got := map[string]int{}
		fin := make(chan struct{})
		go func() {
			defer close(fin)
			for e := range dg.WaitError() {
				got[e.Error()]++
			}
		}()
		for i := range cnt {
			i := i
			dg.Todo()
			go func() {
				defer dg.Done()
				for j := 0; j < cnt[i]; j++ {
					dg.Errors(errors.New(fmt.Sprint(i, "/", j)))
				}
			}()
		}
		dg.Wait()
		dg.Close()
		dg.Close()
		<-fin
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Fatalf("errors received %v, reported %v", got, strings.Join(vh.Keys(want), " "))
		}
	})
}
