package service_test

import (
	"bytes"
	"common/cache"
	"common/util"
	"fmt"
	"io"
	"math/rand"
	"metaserver/internal/entity"
	"metaserver/internal/usecase"
	. "metaserver/internal/verifenv"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/hashicorp/raft"
	"pgregory.net/rapid"
	"verifharness/vh"
)

// lazyCache takes its time now and then, so that readers and writers meet.
type lazyCache struct {
	cache.ICache
	mu  sync.Mutex
	rnd *rand.Rand
	hit int
}

func (l *lazyCache) pause() {
	l.mu.Lock()
	n := l.rnd.Intn(12)
	l.mu.Unlock()
	if n == 0 {
		time.Sleep(150 * time.Microsecond)
	}
}

func (l *lazyCache) HasGet(k string) ([]byte, bool) {
	l.pause()
	bt, ok := l.ICache.HasGet(k)
	if ok {
		l.mu.Lock()
		l.hit++
		l.mu.Unlock()
	}
	return bt, ok
}

func (l *lazyCache) Set(k string, v []byte) bool {
	l.pause()
	return l.ICache.Set(k, v)
}

// view writes down everything e answers.
func view(e *Env, seq func(id string) int) []string {
	var out []string
	add := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	for _, id := range idPool {
		meta, _, err := e.Meta.GetMetadata(id, -1, true)
		if err != nil {
			add("object %q: %s", id, ClassOf(err))
		} else {
			add("object %q: %+v %+v", id, *CopyMeta(meta), meta.Extra)
		}
		max := seq(id) + 1
		for n := 0; n <= max; n++ {
			v, err := e.Meta.GetVersion(id, n)
			if err != nil {
				add("version %d of %q: %s", n, id, ClassOf(err))
			} else {
				add("version %d of %q: %+v", n, id, *v)
			}
		}
		for p := 1; p <= 3; p++ {
			vs, total, err := e.Meta.ListVersions(id, p, 2)
			add("page %d of %q: %s total %d %v", p, id, Vs(vs), total, ClassOf(err))
			for _, v := range vs {
				add("  %+v", *v)
			}
		}
		if bt, err := e.Meta.GetMetadataBytes(id); err != nil {
			add("bytes of %q: %s", id, ClassOf(err))
		} else {
			add("bytes of %q: %x", id, bt)
		}
	}
	for _, p := range []string{"", "b/", "b/a", "c"} {
		ms, total, err := e.Meta.ListMetadata(p, 100)
		add("objects %q: total %d, %v", p, total, ClassOf(err))
		for _, m := range ms {
			add("  %+v", *CopyMeta(m))
		}
	}
	for _, h := range hashPool {
		vs, err := e.Meta.FindByHash(h)
		add("hash %q: %v", h, ClassOf(err))
		for _, v := range SortVersions(vs) {
			add("  %+v", *v)
		}
	}
	for _, n := range bktPool {
		b, err := e.Buckets.Get(n)
		if err != nil {
			add("bucket %q: %s", n, ClassOf(err))
		} else {
			add("bucket %q: %+v", n, *b)
		}
		if bt, err := e.Buckets.GetBytes(n); err != nil {
			add("bytes of bucket %q: %s", n, ClassOf(err))
		} else {
			add("bytes of bucket %q: %x", n, bt)
		}
	}
	for _, p := range []string{"", "b", "ba"} {
		bs, total, err := e.Buckets.List(p, 100)
		add("buckets %q: total %d %v", p, total, ClassOf(err))
		for _, b := range bs {
			add("  %+v", *b)
		}
	}
	return out
}

// sameView compares the answers with and without the cache; "" if they are equal (soon).
func sameView(e *Env, m *Model) string {
	seq := func(id string) int {
		if o := m.Objs[id]; o != nil {
			return int(o.Seq)
		}
		return 2
	}
	u := e.Uncached()
	d := ""
	for i := 0; i < 8; i++ {
		want, got := view(u, seq), view(e, seq)
		d = ""
		for j := range want {
			if j >= len(got) || got[j] != want[j] {
				g := "nothing"
				if j < len(got) {
					g = got[j]
				}
				d = fmt.Sprintf("with the cache %s, without it %s", g, want[j])
				break
			}
		}
		if d == "" {
			return ""
		}
		// what is under way may end
		time.Sleep(50 * time.Millisecond)
	}
	return d
}

// direct executes a replicated command at the repositories, as a server without replicas does.
func direct(e *Env, c *command, batch bool) error {
	var d entity.RaftData
	if err := util.DecodeMsgp(&d, c.log.Data); err != nil {
		panic(err)
	}
	var w usecase.WritableRepo = e.MetaRepo
	if batch {
		w = e.BatchMeta
	}
	switch d.Dest {
	case entity.DestMetadata:
		switch d.Type {
		case entity.LogInsert:
			return w.AddMetadata(d.Name, d.Metadata)
		case entity.LogUpdate:
			return w.UpdateMetadata(d.Name, d.Metadata)
		}
		return w.RemoveMetadata(d.Name)
	case entity.DestVersion:
		switch d.Type {
		case entity.LogInsert:
			return w.AddVersion(d.Name, d.Version)
		case entity.LogUpdate:
			d.Version.Sequence = d.Sequence
			return w.UpdateVersion(d.Name, d.Version)
		case entity.LogMigrate:
			return w.AddVersionFromRaft(d.Name, d.Version)
		}
		return w.RemoveVersion(d.Name, d.Sequence)
	case entity.DestVersionAll:
		return w.RemoveAllVersion(d.Name)
	case entity.DestBucket:
		var b interface {
			usecase.BucketWritableRepo
		} = e.Bucket
		if batch {
			b = e.BatchBuckets()
		}
		switch d.Type {
		case entity.LogInsert:
			return b.Create(d.Bucket)
		case entity.LogUpdate:
			return b.Update(d.Bucket)
		}
		return b.Remove(d.Name)
	case entity.DestLocate:
		return e.MetaRepo.UpdateLocateByHash(d.Name, int(d.Sequence), d.Version.Locate[0], d.Version.Ts)
	}
	panic("unknown")
}

// tuning is held by reads (shared) and while the database is tuned.
var tuning sync.RWMutex

// readers keep reading everything until stopped.
func readers(e *Env, n int, seed int64) (stop func()) {
	done := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		rnd := rand.New(rand.NewSource(seed + int64(i)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-done:
					return
				default:
				}
				tuning.RLock()
				id := idPool[rnd.Intn(len(idPool))]
				switch rnd.Intn(6) {
				case 0:
					_, _, _ = e.Meta.GetMetadata(id, 0, true)
				case 1, 2:
					_, _ = e.Meta.GetVersion(id, rnd.Intn(5))
				case 3:
					_, _, _ = e.Meta.ListVersions(id, 1, 3)
				case 4:
					_, _ = e.Buckets.Get(bktPool[rnd.Intn(len(bktPool))])
				case 5:
					_, _, _ = e.Buckets.List("", 10)
					_, _ = e.Meta.FindByHash(hashPool[rnd.Intn(len(hashPool))])
				}
				tuning.RUnlock()
			}
		}()
	}
	return func() { close(done); wg.Wait() }
}

func coherence(t *testing.T, n int, nReaders func(*rapid.T) int) {
	vh.Check(t, n, "values were served from the cache and something cached was changed afterwards", func(t *rapid.T, c *vh.Case) {
		lc := &lazyCache{ICache: NewCache(), rnd: rand.New(rand.NewSource(rapid.Int64().Draw(t, "delays")))}
		e := New(lc, nil)
		defer e.Close()
		e.Grow()
		m := NewModel()
		var index uint64
		var uid int
		stop := func() {}
		if k := nReaders(t); k > 0 {
			stop = readers(e, k, rapid.Int64().Draw(t, "readers"))
			c.Class("concurrent readers")
		}
		running := true
		end := func() {
			if running {
				running = false
				stop()
			}
		}
		defer end()
		var snap []byte
		var snapModel *Model
		var snapIndex uint64
		changed := 0
		steps := rapid.IntRange(3, 30).Draw(t, "steps")
		for i := 0; i < steps; i++ {
			switch rapid.IntRange(0, 12).Draw(t, "path") {
			case 0:
				tx, err := e.FSM.Snapshot()
				if err != nil {
					t.Fatalf("snapshot: %v", err)
				}
				sk := &sink{limit: -1}
				if err = tx.Persist(sk); err != nil {
					t.Fatalf("persist: %v", err)
				}
				tx.Release()
				snap, snapModel, snapIndex = append([]byte{}, sk.Bytes()...), m.Clone(), index
				c.Logf("snapshot")
			case 1:
				if snap == nil {
					continue
				}
				if err := e.FSM.Restore(io.NopCloser(bytes.NewReader(snap))); err != nil {
					t.Fatalf("restore: %v", err)
				}
				tuning.Lock()
				Tune(e.Storage)
				tuning.Unlock()
				m, index = snapModel.Clone(), snapIndex
				changed++
				c.Class("restore")
				c.Logf("restore")
			case 2, 3, 4:
				index++
				cmd := genCommand(t, m, index, &uid)
				a := answerOf(e.FSM.Apply(cmd.log))
				if d := cmpAnswer(cmd, "the state machine", a); d != "" {
					t.Fatalf("%s", d)
				}
				if cmd.want == OK && !cmd.weird {
					changed++
				}
				c.Logf("log: %s", cmd.what)
			case 5, 6, 7:
				var logs []*raft.Log
				var cmds []*command
				for k := rapid.IntRange(1, 6).Draw(t, "batch"); k > 0; k-- {
					index++
					cmd := genCommand(t, m, index, &uid)
					logs, cmds = append(logs, cmd.log), append(cmds, cmd)
					c.Logf("batch: %s", cmd.what)
				}
				for j, r := range apply(e.FSM, logs) {
					if d := cmpAnswer(cmds[j], "the state machine", answerOf(r)); d != "" {
						t.Fatalf("%s", d)
					}
					changed++
				}
			case 8, 9, 10, 11, 12:
				cmd := genCommand(t, m, index+1, &uid)
				if cmd.weird {
					continue
				}
				batch := rapid.Bool().Draw(t, "batched")
				got := ClassOf(direct(e, cmd, batch))
				if got != cmd.want {
					t.Fatalf("%s: answered %s, want %s", cmd.what, got, cmd.want)
				}
				if cmd.want == OK {
					changed++
				}
				c.Logf("direct (batch %v): %s", batch, cmd.what)
			}
			// fill the cache
			for k := rapid.IntRange(0, 3).Draw(t, "reads"); k > 0; k-- {
				id := rapid.SampledFrom(idPool).Draw(t, "rid")
				_, _, _ = e.Meta.GetMetadata(id, 0, true)
				_, _, _ = e.Meta.ListVersions(id, 1, 9)
				_, _ = e.Meta.GetVersion(id, rapid.IntRange(0, 4).Draw(t, "rver"))
				_, _ = e.Buckets.Get(rapid.SampledFrom(bktPool).Draw(t, "rb"))
			}
			if rapid.IntRange(0, 3).Draw(t, "compare") == 0 {
				if d := sameView(e, m); d != "" {
					t.Fatalf("after step %d: %s", i, d)
				}
			}
		}
		end()
		if d := sameView(e, m); d != "" {
			t.Fatalf("at the end: %s", d)
		}
		if d := e.Check(m, idPool...); d != "" {
			t.Fatalf("at the end: %s", d)
		}
		if lc.hit > 0 && changed > 0 {
			c.NonTrivial()
		}
	})
}

// TestVerif_M08_histories compares cached with uncached answers after every kind of change.
func TestVerif_M08_histories(t *testing.T) {
	coherence(t, vh.N(300, 6000), func(*rapid.T) int { return 0 })
}

// TestVerif_M08_readers does so while others keep reading, so that the cache is filled during the changes.
func TestVerif_M08_readers(t *testing.T) {
	coherence(t, vh.N(90, 2500), func(t *rapid.T) int { return rapid.IntRange(1, 4).Draw(t, "n") })
}

// TestVerif_M08_readers_race is the same with the race detector.
func TestVerif_M08_readers_race(t *testing.T) {
	coherence(t, vh.N(25, 400), func(t *rapid.T) int { return rapid.IntRange(1, 4).Draw(t, "n") })
}

// TestVerif_M08_duel lets one writer change one record again and again under many readers of it:
// after the last write has returned, the cache must hold nothing older.
func TestVerif_M08_duel(t *testing.T) {
	vh.Check(t, vh.N(60, 1000), "the record was read at least ten times while it was changed", func(t *rapid.T, c *vh.Case) {
		lc := &lazyCache{ICache: NewCache(), rnd: rand.New(rand.NewSource(rapid.Int64().Draw(t, "delays")))}
		e := New(lc, nil)
		defer e.Close()
		e.Grow()
		v := genVersion(t)
		v.UniqueId, v.Ts = "u", 0
		meta := genMeta(t)
		b := genBucket(t)
		b.CreateTime, b.UpdateTime, meta.CreateTime, meta.UpdateTime = 0, 0, 0, 0
		for _, err := range []error{e.MetaRepo.AddMetadata("b/a", meta), e.MetaRepo.AddVersion("b/a", v), e.Bucket.Create(b)} {
			if err != nil {
				t.Fatalf("setting up: %v", err)
			}
		}
		var wg sync.WaitGroup
		done := make(chan struct{})
		var mu sync.Mutex
		reads := 0
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				n := 0
				for {
					select {
					case <-done:
						mu.Lock()
						reads += n
						mu.Unlock()
						return
					default:
					}
					n++
					_, _ = e.Meta.GetVersion("b/a", 1)
					_, _, _ = e.Meta.GetMetadata("b/a", 0, true)
					_, _ = e.Buckets.Get(b.Name)
					_, _, _ = e.Buckets.List("", 2)
				}
			}()
		}
		ts := int64(0)
		n := rapid.IntRange(1, 40).Draw(t, "n")
		batch := rapid.Bool().Draw(t, "batched")
		kinds := map[string]bool{}
		for i := 0; i < n; i++ {
			ts++
			var w usecase.WritableRepo = e.MetaRepo
			var wb usecase.BucketWritableRepo = e.Bucket
			if batch {
				w, wb = e.BatchMeta, e.BatchBuckets()
			}
			var err error
			switch k := rapid.IntRange(0, 3).Draw(t, "kind"); k {
			case 0:
				x := CopyVersion(v)
				x.Sequence, x.Ts = 1, ts
				x.Locate[0] = fmt.Sprintf("v%d", ts)
				err = w.UpdateVersion("b/a", x)
				kinds["update version"] = true
			case 1:
				x := CopyMeta(meta)
				x.UpdateTime = ts
				err = w.UpdateMetadata("b/a", x)
				kinds["update object"] = true
			case 2:
				x := CopyBucket(b)
				x.UpdateTime = ts
				err = wb.Update(x)
				kinds["update bucket"] = true
			case 3:
				err = e.MetaRepo.UpdateLocateByHash(v.Hash, 0, fmt.Sprintf("l%d", ts), ts)
				kinds["update location"] = true
			}
			if err != nil {
				t.Fatalf("write %d: %v", i, err)
			}
		}
		close(done)
		wg.Wait()
		m := NewModel()
		m.AddMeta("b/a", meta)
		if d := sameView(e, m); d != "" {
			t.Fatalf("after %d writes: %s", n, d)
		}
		ks := make([]string, 0)
		for k := range kinds {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		c.Logf("%d writes, batched %v: %s", n, batch, strings.Join(ks, ", "))
		if reads >= 10 && n > 1 {
			c.NonTrivial()
		}
	})
}
