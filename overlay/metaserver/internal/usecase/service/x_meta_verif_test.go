package service_test

import (
	"common/logs"
	"common/proto/msg"
	"common/proto/pb"
	"common/util"
	"context"
	"fmt"
	"metaserver/internal/usecase"
	. "metaserver/internal/verifenv"
	"os"
	"sort"
	"strings"
	"testing"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
	"verifharness/vh"
)

func TestMain(m *testing.M) {
	logs.SetLevel(logs.Error)
	// raft wants a file
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	logs.Std().SetOutput(null)
	if addr := os.Getenv("VERIF_CHILD"); addr != "" {
		child(addr)
		return
	}
	os.Exit(m.Run())
}

var (
	idPool   = []string{"b/a", "b/a.1", "b/a.1.1", "b/a.10", "b/ab", "b/a/b", "b.1/a", "c/日本", "a"}
	hashPool = []string{"h1", "h2", "h1.1", "H1", "q+/=", "longer-hash-0123456789abcdef"}
	bktPool  = []string{"b", "b.1", "ba", "bab", "c", "日本", "b/1"}
)

func genID(t *rapid.T, m *Model) string {
	if len(m.Objs) > 0 && rapid.IntRange(0, 9).Draw(t, "known") < 7 {
		ids := m.IDs("")
		return ids[rapid.IntRange(0, len(ids)-1).Draw(t, "idx")]
	}
	return rapid.SampledFrom(idPool).Draw(t, "id")
}

func genVersion(t *rapid.T) *msg.Version {
	n := rapid.IntRange(1, 4).Draw(t, "shards")
	v := &msg.Version{
		Compress:      rapid.Bool().Draw(t, "compress"),
		StoreStrategy: int8(rapid.IntRange(1, 2).Draw(t, "strategy")),
		DataShards:    int32(rapid.IntRange(1, 4).Draw(t, "ds")),
		ParityShards:  int32(rapid.IntRange(0, 3).Draw(t, "ps")),
		ShardSize:     rapid.Int64Range(1, 1<<40).Draw(t, "ss"),
		Size:          rapid.Int64Range(1, 1<<40).Draw(t, "size"),
		Hash:          rapid.SampledFrom(hashPool).Draw(t, "hash"),
	}
	for i := 0; i < n; i++ {
		v.Locate = append(v.Locate, rapid.SampledFrom([]string{"s1", "s2", "s3", ""}).Draw(t, "loc"))
	}
	return v
}

func genMeta(t *rapid.T) *msg.Metadata {
	m := &msg.Metadata{
		Name:   rapid.SampledFrom([]string{"a", "n1", "x.y", "日本"}).Draw(t, "name"),
		Bucket: rapid.SampledFrom([]string{"b", "c"}).Draw(t, "bucket"),
	}
	if rapid.Bool().Draw(t, "extra") {
		m.Extra = &msg.Extra{Total: 7, FirstVersion: 3, LastVersion: 9}
	}
	return m
}

// genVer draws a version number near the live ones.
func genVer(t *rapid.T, m *Model, id string) uint64 {
	o := m.Objs[id]
	if o == nil {
		return uint64(rapid.IntRange(1, 3).Draw(t, "ver"))
	}
	if nums := o.Numbers(); len(nums) > 0 && rapid.IntRange(0, 9).Draw(t, "live") < 8 {
		return nums[rapid.IntRange(0, len(nums)-1).Draw(t, "vidx")]
	}
	return uint64(rapid.IntRange(1, int(o.Seq)+1).Draw(t, "ver"))
}

// TestVerif_M01_repository drives both repositories with explicit timestamps
// and compares every answer with the plain model.
func TestVerif_M01_repository(t *testing.T) {
	vh.Check(t, vh.N(1500, 20000), "at least one object got 2 versions and an update or removal happened", func(t *rapid.T, c *vh.Case) {
		e := New(nil, nil)
		defer e.Close()
		m := NewModel()
		steps := rapid.IntRange(1, 60).Draw(t, "steps")
		var uid int
		var maxVers, changed int
		used := map[string]bool{}
		for i := 0; i < steps; i++ {
			id := genID(t, m)
			used[id] = true
			var w usecase.WritableRepo = e.MetaRepo
			if rapid.IntRange(0, 3).Draw(t, "batch") == 0 {
				w = e.BatchMeta
				c.Class("batch")
			}
			ts := rapid.Int64Range(0, 30).Draw(t, "ts")
			var got, want Err
			var what string
			switch op := rapid.IntRange(0, 11).Draw(t, "op"); op {
			case 0, 1:
				d := genMeta(t)
				d.CreateTime, d.UpdateTime = ts, ts+rapid.Int64Range(0, 3).Draw(t, "up")
				want = m.AddMeta(id, d)
				got = ClassOf(w.AddMetadata(id, d))
				what = fmt.Sprintf("add object %q", id)
			case 2:
				d := genMeta(t)
				d.CreateTime, d.UpdateTime = ts, ts+rapid.Int64Range(0, 9).Draw(t, "up")
				want = m.UpdateMeta(id, d)
				got = ClassOf(w.UpdateMetadata(id, d))
				what = fmt.Sprintf("update object %q ts %d", id, d.UpdateTime)
				if want == OK {
					changed++
				}
				c.ClassIf(want == Old, "stale update")
			case 3:
				if rapid.IntRange(0, 2).Draw(t, "really") > 0 {
					continue
				}
				if m.Objs[id] != nil {
					changed++
				}
				want = m.RemoveMeta(id)
				got = ClassOf(w.RemoveMetadata(id))
				what = fmt.Sprintf("remove object %q", id)
			case 4, 5, 6, 7:
				d := genVersion(t)
				uid++
				d.UniqueId, d.Ts = fmt.Sprintf("u%d", uid), ts
				// a number the caller fills in must not matter
				d.Sequence = uint64(rapid.IntRange(0, 9).Draw(t, "junkSeq"))
				n, we := m.AddVer(id, d)
				want = we
				got = ClassOf(w.AddVersion(id, d))
				what = fmt.Sprintf("add version to %q", id)
				if want == OK && got == OK && d.Sequence != n {
					t.Fatalf("%s: got number %d, want %d", what, d.Sequence, n)
				}
				if o := m.Objs[id]; o != nil && len(o.Vers) > maxVers {
					maxVers = len(o.Vers)
				}
			case 8:
				d := genVersion(t)
				d.Sequence, d.Ts, d.UniqueId = genVer(t, m, id), ts, "other"
				want = m.UpdateVer(id, d)
				got = ClassOf(w.UpdateVersion(id, d))
				what = fmt.Sprintf("update version %d of %q ts %d", d.Sequence, id, ts)
				if want == OK {
					changed++
				}
				c.ClassIf(want == Old, "stale update")
			case 9:
				n := genVer(t, m, id)
				want = m.RemoveVer(id, n)
				if m.Objs[id] == nil {
					// removing from nothing may be answered either way
					want = ClassOf(w.RemoveVersion(id, n))
					got = want
				} else {
					got = ClassOf(w.RemoveVersion(id, n))
					changed++
				}
				what = fmt.Sprintf("remove version %d of %q", n, id)
			case 10:
				if rapid.IntRange(0, 2).Draw(t, "really") > 0 {
					continue
				}
				want = m.RemoveAllVer(id)
				got = ClassOf(w.RemoveAllVersion(id))
				if want != OK && got != OK {
					got = want
				}
				what = fmt.Sprintf("remove all versions of %q", id)
			case 11:
				// a read in between
				v, err := e.MetaRepo.GetMetadata(id)
				if o := m.Objs[id]; o == nil && ClassOf(err) != NotFound || o != nil && (err != nil || !EqMeta(v, &o.Meta)) {
					t.Fatalf("object %q: got %+v, %v, want %+v", id, v, err, o)
				}
				n := genVer(t, m, id)
				x, err := e.MetaRepo.GetVersion(id, n)
				var wv *msg.Version
				if o := m.Objs[id]; o != nil {
					wv = o.Vers[n]
				}
				if wv == nil && ClassOf(err) != NotFound || wv != nil && (err != nil || !EqVersion(x, wv)) {
					t.Fatalf("version %d of %q: got %+v, %v, want %+v", n, id, x, err, wv)
				}
				continue
			}
			c.Logf("%s=%s", what, got)
			if got != want {
				t.Fatalf("%s: answered %s, want %s", what, got, want)
			}
		}
		names := make([]string, 0, len(used))
		for k := range used {
			names = append(names, k)
		}
		sort.Strings(names)
		if d := e.Check(m, names...); d != "" {
			t.Fatalf("at the end: %s", d)
		}
		if maxVers >= 2 && changed > 0 {
			c.NonTrivial()
		}
	})
}

// tick waits for the server's clock (milliseconds) to move on.
func tick() {
	for s := time.Now().UnixMilli(); time.Now().UnixMilli() == s; {
		time.Sleep(100 * time.Microsecond)
	}
}

// TestVerif_M01_service drives the service and its gRPC handlers.
func TestVerif_M01_service(t *testing.T) {
	vh.Check(t, vh.N(500, 8000), "at least one object got 2 versions and an update or removal happened", func(t *rapid.T, c *vh.Case) {
		e := New(nil, nil)
		defer e.Close()
		m := NewModel()
		ctx := context.Background()
		steps := rapid.IntRange(1, 40).Draw(t, "steps")
		var maxVers, changed int
		uids := map[string]bool{}
		for i := 0; i < steps; i++ {
			id := genID(t, m)
			rpc := rapid.Bool().Draw(t, "rpc")
			c.ClassIf(rpc, "grpc")
			cmp := func(what string, err error, want Err) {
				t.Helper()
				got := ClassOf(err)
				if rpc {
					got = ClassOfGrpc(err)
					if want == Exists || want == Old {
						want = Other
					}
				}
				c.Logf("%s=%s", what, got)
				if got != want {
					t.Fatalf("%s: answered %s (%v), want %s", what, got, err, want)
				}
			}
			if rapid.IntRange(0, 3).Draw(t, "tick") > 0 {
				tick()
			}
			before := time.Now().UnixMilli()
			switch op := rapid.IntRange(0, 10).Draw(t, "op"); op {
			case 0, 1:
				d := genMeta(t)
				d.CreateTime, d.UpdateTime = 5, 99
				w := CopyMeta(d)
				var err error
				if rpc {
					_, err = e.Api.SaveMetadata(ctx, &pb.Metadata{Id: id, Msgpack: enc(d)})
				} else {
					err = e.Meta.AddMetadata(id, d)
				}
				want := m.AddMeta(id, w)
				cmp(fmt.Sprintf("add object %q", id), err, want)
				if want == OK {
					r, _, err := e.Meta.GetMetadata(id, -1, false)
					if err != nil {
						t.Fatalf("object %q just added: %v", id, err)
					}
					if r.CreateTime < before || r.CreateTime > time.Now().UnixMilli() || r.UpdateTime != r.CreateTime {
						t.Fatalf("object %q added at %d has times %d, %d", id, before, r.CreateTime, r.UpdateTime)
					}
					o := m.Objs[id]
					o.Meta.CreateTime, o.Meta.UpdateTime = r.CreateTime, r.UpdateTime
				}
			case 2:
				d := genMeta(t)
				o := m.Objs[id]
				err := e.Meta.UpdateMetadata(id, CopyMeta(d))
				rpc = false
				after := time.Now().UnixMilli()
				if o != nil {
					d.UpdateTime = before
					if err == nil {
						r, _, err := e.Meta.GetMetadata(id, -1, false)
						if err != nil || r.UpdateTime < before || r.UpdateTime > after {
							t.Fatalf("object %q updated at %d: %+v, %v", id, before, r, err)
						}
						d.UpdateTime = r.UpdateTime
						changed++
					}
				}
				cmp(fmt.Sprintf("update object %q", id), err, m.UpdateMeta(id, d))
			case 3:
				if rapid.IntRange(0, 2).Draw(t, "really") > 0 {
					continue
				}
				if m.Objs[id] != nil {
					changed++
				}
				rpc = false
				cmp(fmt.Sprintf("remove object %q", id), e.Meta.RemoveMetadata(id), m.RemoveMeta(id))
			case 4, 5, 6:
				d := genVersion(t)
				d.UniqueId, d.Ts = "junk", 3
				w := CopyVersion(d)
				var n int
				var err error
				if rpc {
					var r *pb.Int32
					r, err = e.Api.SaveVersion(ctx, &pb.Metadata{Id: id, Msgpack: enc(d)})
					n = int(r.GetData())
				} else {
					n, err = e.Meta.AddVersion(id, d)
				}
				num, want := m.AddVer(id, w)
				cmp(fmt.Sprintf("add version to %q", id), err, want)
				if want == OK {
					if n != int(num) {
						t.Fatalf("add version to %q: number %d, want %d", id, n, num)
					}
					r, err := e.Meta.GetVersion(id, n)
					if err != nil {
						t.Fatalf("version %d of %q just added: %v", n, id, err)
					}
					if r.UniqueId == "" || uids[r.UniqueId] {
						t.Fatalf("version %d of %q has unique id %q, used before", n, id, r.UniqueId)
					}
					uids[r.UniqueId] = true
					if r.Ts < before || r.Ts > time.Now().UnixMilli() {
						t.Fatalf("version %d of %q added at %d has time %d", n, id, before, r.Ts)
					}
					s := m.Objs[id].Vers[num]
					s.UniqueId, s.Ts = r.UniqueId, r.Ts
					if k := len(m.Objs[id].Vers); k > maxVers {
						maxVers = k
					}
				}
			case 7:
				d := genVersion(t)
				d.Sequence = genVer(t, m, id)
				d.UniqueId, d.Ts = "other", 1
				var err error
				sent := CopyVersion(d)
				sent.Sequence = uint64(rapid.IntRange(0, 5).Draw(t, "junkSeq"))
				if rpc {
					_, err = e.Api.UpdateVersion(ctx, &pb.Metadata{Id: id, Version: int32(d.Sequence), Msgpack: enc(sent)})
				} else {
					err = e.Meta.UpdateVersion(id, int(d.Sequence), sent)
				}
				after := time.Now().UnixMilli()
				o := m.Objs[id]
				live := o != nil && o.Vers[d.Sequence] != nil
				if live {
					d.Ts = before
					if err == nil {
						r, err := e.Meta.GetVersion(id, int(d.Sequence))
						if err != nil || r.Ts < before || r.Ts > after {
							t.Fatalf("version %d of %q updated at %d: %+v, %v", d.Sequence, id, before, r, err)
						}
						d.Ts = r.Ts
						changed++
					}
				}
				cmp(fmt.Sprintf("update version %d of %q", d.Sequence, id), err, m.UpdateVer(id, d))
			case 8:
				n := genVer(t, m, id)
				if m.Objs[id] == nil {
					continue
				}
				var err error
				if rpc {
					_, err = e.Api.RemoveVersion(ctx, &pb.MetaReq{Id: id, Version: int32(n)})
				} else {
					err = e.Meta.RemoveVersion(id, int(n))
				}
				changed++
				cmp(fmt.Sprintf("remove version %d of %q", n, id), err, m.RemoveVer(id, n))
			case 9:
				if m.Objs[id] == nil || rapid.IntRange(0, 3).Draw(t, "really") > 0 {
					continue
				}
				rpc = false
				cmp(fmt.Sprintf("remove all versions of %q", id), e.Meta.RemoveVersion(id, -1), m.RemoveAllVer(id))
			case 10:
				checkReads(t, e, m, id, rpc)
			}
		}
		if d := e.Check(m, idPool...); d != "" {
			t.Fatalf("at the end: %s", d)
		}
		if maxVers >= 2 && changed > 0 {
			c.NonTrivial()
		}
	})
}

type marshaler interface{ MarshalMsg([]byte) ([]byte, error) }

func enc(x marshaler) []byte {
	bt, err := x.MarshalMsg(nil)
	if err != nil {
		panic(err)
	}
	return bt
}

// checkReads reads one object through the service or the gRPC handlers.
func checkReads(t *rapid.T, e *Env, m *Model, id string, rpc bool) {
	o := m.Objs[id]
	n := int(genVer(t, m, id))
	var meta *msg.Metadata
	var ver *msg.Version
	var err, verr error
	withExtra := rapid.Bool().Draw(t, "withExtra")
	if rpc {
		r, e1 := e.Api.GetMetadata(context.Background(), &pb.MetaReq{Id: id, WithExtra: withExtra})
		if err = e1; err == nil {
			meta = &msg.Metadata{}
			if _, err := meta.UnmarshalMsg(r.Data); err != nil {
				t.Fatalf("answer of GetMetadata: %v", err)
			}
		}
		r, e1 = e.Api.GetVersion(context.Background(), &pb.MetaReq{Id: id, Version: int32(n)})
		if verr = e1; verr == nil {
			ver = &msg.Version{}
			if _, err := ver.UnmarshalMsg(r.Data); err != nil {
				t.Fatalf("answer of GetVersion: %v", err)
			}
		}
		if err != nil && status.Code(err) == codes.NotFound {
			err = usecase.ErrNotFound
		}
		if verr != nil && status.Code(verr) == codes.NotFound {
			verr = usecase.ErrNotFound
		}
	} else {
		meta, ver, err = e.Meta.GetMetadata(id, n, withExtra)
		if err == nil && ver == nil {
			verr = usecase.ErrNotFound
		} else {
			verr = err
		}
	}
	if o == nil {
		if ClassOf(err) != NotFound || ClassOf(verr) != NotFound {
			t.Fatalf("object %q: got %v, %v, want not found", id, err, verr)
		}
		return
	}
	if err != nil || !EqMeta(meta, &o.Meta) {
		t.Fatalf("object %q: got %+v, %v, want %+v", id, meta, err, o.Meta)
	}
	if want := o.Vers[uint64(n)]; want == nil && ClassOf(verr) != NotFound || want != nil && (verr != nil || !EqVersion(ver, want)) {
		t.Fatalf("version %d of %q: got %+v, %v, want %+v", n, id, ver, verr, want)
	}
}

// TestVerif_M02_order gives objects many versions, removes some, and compares
// latest, summary and every listing with the numeric order.
func TestVerif_M02_order(t *testing.T) {
	vh.Check(t, vh.N(400, 4000), "an object has at least 10 versions and some were removed", func(t *rapid.T, c *vh.Case) {
		e := New(nil, nil)
		defer e.Close()
		m := NewModel()
		ids := []string{"b/a", "b/a.1"}
		for _, id := range ids {
			md := &msg.Metadata{Name: id, Bucket: "b", CreateTime: 1, UpdateTime: 1}
			m.AddMeta(id, md)
			if err := e.MetaRepo.AddMetadata(id, md); err != nil {
				t.Fatalf("add %q: %v", id, err)
			}
		}
		uid, removed, most := 0, 0, 0
		rounds := rapid.IntRange(1, 4).Draw(t, "rounds")
		for r := 0; r < rounds; r++ {
			id := rapid.SampledFrom(ids).Draw(t, "id")
			o := m.Objs[id]
			n := rapid.SampledFrom([]int{1, 3, 8, 9, 10, 11, 12, 25, 90, 103}).Draw(t, "n")
			for i := 0; i < n; i++ {
				uid++
				v := &msg.Version{Hash: fmt.Sprint("h", uid%3), UniqueId: fmt.Sprint("u", uid), Ts: 1, Size: int64(uid), Locate: []string{"s"}}
				if _, we := m.AddVer(id, v); we != OK {
					t.Fatal("model")
				}
				if err := e.MetaRepo.AddVersion(id, v); err != nil {
					t.Fatalf("add version: %v", err)
				}
			}
			c.Logf("%s+%d", id, n)
			if len(o.Vers) > most {
				most = len(o.Vers)
			}
			readSome(t, e, m, id)
			mode := rapid.IntRange(0, 4).Draw(t, "removal")
			for _, s := range o.Numbers() {
				var del bool
				switch mode {
				case 0:
				case 1: // scattered
					del = rapid.IntRange(0, 2).Draw(t, "del") == 0
				case 2: // oldest
					del = int(s) <= int(o.Seq)*2/3
				case 3: // newest
					del = int(s) > int(o.Seq)/3
				case 4: // all
					del = true
				}
				if !del {
					continue
				}
				removed++
				m.RemoveVer(id, s)
				if err := e.MetaRepo.RemoveVersion(id, s); err != nil {
					t.Fatalf("remove version %d: %v", s, err)
				}
			}
			c.Logf("mode%d live %d", mode, len(o.Vers))
			readSome(t, e, m, id)
		}
		for _, id := range ids {
			readSome(t, e, m, id)
		}
		if d := e.Check(m); d != "" {
			t.Fatal(d)
		}
		c.ClassIf(most >= 100, "100 and more versions")
		if most >= 10 && removed > 0 {
			c.NonTrivial()
		}
	})
}

// TestVerif_M02_many keeps far more versions than a page, a cache or a hundred numbers hold.
func TestVerif_M02_many(t *testing.T) {
	vh.Check(t, vh.N(12, 150), "at least 1000 live versions were listed after some were removed", many)
}

// TestVerif_M08_many reads the same from a cache that does not hold them all.
func TestVerif_M08_many(t *testing.T) {
	vh.Check(t, vh.N(8, 100), "at least 1000 live versions were read through the cache after some were removed", many)
}

func many(t *rapid.T, c *vh.Case) {
	e := New(NewCache(), nil)
	defer e.Close()
	m := NewModel()
	const id = "b/a"
	md := &msg.Metadata{Name: "a", Bucket: "b", CreateTime: 1, UpdateTime: 1}
	m.AddMeta(id, md)
	if err := e.MetaRepo.AddMetadata(id, md); err != nil {
		t.Fatalf("add: %v", err)
	}
	uid := 0
	removed, nontriv := false, false
	rounds := rapid.IntRange(1, 3).Draw(t, "rounds")
	for r := 0; r < rounds; r++ {
		o := m.Objs[id]
		n := rapid.SampledFrom([]int{1100, 2100, 300}).Draw(t, "n")
		for i := 0; i < n; i++ {
			uid++
			v := &msg.Version{Hash: fmt.Sprint("h", uid%7), UniqueId: fmt.Sprint("u", uid), Ts: 1, Size: int64(uid), Locate: []string{"s"}}
			want, _ := m.AddVer(id, v)
			var w usecase.WritableRepo = e.MetaRepo
			if uid%5 == 0 {
				w = e.BatchMeta
			}
			if err := w.AddVersion(id, v); err != nil {
				t.Fatalf("add version: %v", err)
			}
			if v.Sequence != want {
				t.Fatalf("got number %d, want %d", v.Sequence, want)
			}
		}
		nums := o.Numbers()
		at := rapid.IntRange(0, len(nums)-1).Draw(t, "removeAt")
		k := rapid.SampledFrom([]int{1, 10, 500}).Draw(t, "removeN")
		every := rapid.SampledFrom([]int{1, 3}).Draw(t, "every")
		for i := at; i < at+k && i < len(nums)-1; i += every {
			m.RemoveVer(id, nums[i])
			if err := e.MetaRepo.RemoveVersion(id, nums[i]); err != nil {
				t.Fatalf("remove version %d: %v", nums[i], err)
			}
			removed = true
		}
		nums = o.Numbers()
		c.Logf("+%d, removed %d from the %dth, %d live", n, k, at, len(nums))
		meta, ver, err := e.Meta.GetMetadata(id, 0, true)
		if err != nil || !EqVersion(ver, o.Last()) || *meta.Extra != (msg.Extra{Total: len(nums), FirstVersion: int(nums[0]), LastVersion: int(nums[len(nums)-1])}) {
			t.Fatalf("object: %+v %+v, latest %+v, %v", meta, meta.Extra, ver, err)
		}
		if len(nums) >= 1000 && removed {
			nontriv = true
		}
		for i := 0; i < 25; i++ {
			size := rapid.SampledFrom([]int{1, 2, 7, 100, 999, 5000}).Draw(t, "size")
			pages := (len(nums) + size - 1) / size
			page := rapid.IntRange(1, pages+1).Draw(t, "page")
			lst, total, err := e.Meta.ListVersions(id, page, size)
			if err != nil || total != len(nums) {
				t.Fatalf("page %d by %d: total %d of %d, %v", page, size, total, len(nums), err)
			}
			var want []uint64
			if from := (page - 1) * size; from < len(nums) {
				to := from + size
				if to > len(nums) {
					to = len(nums)
				}
				want = nums[from:to]
			}
			if len(lst) != len(want) {
				t.Fatalf("page %d by %d of %d versions has %d entries, want %d", page, size, len(nums), len(lst), len(want))
			}
			for j := range want {
				if !EqVersion(lst[j], o.Vers[want[j]]) {
					t.Fatalf("page %d by %d: entry %d is %+v, want %+v", page, size, j, *lst[j], *o.Vers[want[j]])
				}
			}
		}
		for i := 0; i < 400; i++ {
			n := uint64(1 + (i*7919+r*31)%(uid+1))
			v, err := e.Meta.GetVersion(id, int(n))
			if x := o.Vers[n]; x == nil && ClassOf(err) != NotFound || x != nil && (err != nil || !EqVersion(v, x)) {
				t.Fatalf("version %d: %+v, %v, want %+v", n, v, err, x)
			}
		}
	}
	if nontriv {
		c.NonTrivial()
	}
}

// readSome reads the summary, the latest version and some paged listings.
func readSome(t *rapid.T, e *Env, m *Model, id string) {
	o := m.Objs[id]
	nums := o.Numbers()
	meta, ver, err := e.Meta.GetMetadata(id, 0, true)
	if err != nil {
		t.Fatalf("object %q: %v", id, err)
	}
	if !EqVersion(ver, o.Last()) {
		t.Fatalf("latest version of %q: %+v, live are %v", id, ver, nums)
	}
	want := msg.Extra{Total: len(nums)}
	if len(nums) > 0 {
		want.FirstVersion, want.LastVersion = int(nums[0]), int(nums[len(nums)-1])
	}
	if *meta.Extra != want {
		t.Fatalf("summary of %q: %+v, want %+v", id, *meta.Extra, want)
	}
	if len(nums) > 0 {
		if f, l := e.MetaRepo.GetFirstVersionNumber(id), e.MetaRepo.GetLastVersionNumber(id); f != nums[0] || l != nums[len(nums)-1] {
			t.Fatalf("first and last of %q: %d, %d, want %d, %d", id, f, l, nums[0], nums[len(nums)-1])
		}
	}
	size := rapid.SampledFrom([]int{1, 2, 3, 7, 10, 50, 1000}).Draw(t, "size")
	if size < 3 && len(nums) > 40 {
		size = 10
	}
	var all []*msg.Version
	for page := 1; ; page++ {
		var lst []*msg.Version
		var total int
		if rapid.Bool().Draw(t, "rpc") {
			r, err := e.Api.ListVersion(context.Background(), &pb.MetaReq{Id: id, Page: &pb.Pageable{Page: int32(page), PageSize: int32(size)}})
			if err != nil {
				t.Fatalf("list versions: %v", err)
			}
			lst = decodeVersions(t, r.Data)
			total = int(r.Total)
		} else {
			var err error
			if lst, total, err = e.Meta.ListVersions(id, page, size); err != nil {
				t.Fatalf("list versions: %v", err)
			}
		}
		if total != len(nums) {
			t.Fatalf("list versions of %q: total %d, want %d", id, total, len(nums))
		}
		if len(lst) > size {
			t.Fatalf("page %d of %q has %d entries, asked for %d", page, id, len(lst), size)
		}
		if len(lst) == 0 {
			break
		}
		if len(all)+len(lst) < len(nums) && len(lst) < size {
			t.Fatalf("page %d of %q has only %d of %d entries although there are more", page, id, len(lst), size)
		}
		all = append(all, lst...)
		if page > len(nums)+2 {
			t.Fatalf("paging through %q does not end", id)
		}
	}
	if len(all) != len(nums) {
		t.Fatalf("paging through %q by %d yields %s, live are %v", id, size, Vs(all), nums)
	}
	for i, s := range nums {
		if !EqVersion(all[i], o.Vers[s]) {
			t.Fatalf("paging through %q by %d: entry %d is %+v, want %+v", id, size, i, *all[i], *o.Vers[s])
		}
	}
}

func decodeVersions(t *rapid.T, bt []byte) []*msg.Version {
	res, err := util.DecodeArrayMsgp(bt, func() *msg.Version { return new(msg.Version) })
	if err != nil {
		t.Fatalf("decode versions: %v", err)
	}
	return res
}

// TestVerif_M03_hash mixes every kind of change with lookups by hash and
// updates of shard locations.
func TestVerif_M03_hash(t *testing.T) {
	vh.Check(t, vh.N(1200, 12000), "a location update hit at least two live versions, or versions with looked-up hashes were removed", func(t *rapid.T, c *vh.Case) {
		e := New(nil, nil)
		defer e.Close()
		m := NewModel()
		uid := 0
		hits, gone := 0, 0
		steps := rapid.IntRange(5, 60).Draw(t, "steps")
		ids := []string{"b/a", "b/a.1", "b/a.11", "c.d.e", "x"}
		for i := 0; i < steps; i++ {
			id := rapid.SampledFrom(ids).Draw(t, "id")
			switch op := rapid.IntRange(0, 13).Draw(t, "op"); {
			case op == 13 && m.Objs[id] != nil && len(m.Objs[id].Vers) > 0:
				// an update that carries another hash, which stays as it is
				n := m.Objs[id].Numbers()[0]
				v := CopyVersion(m.Objs[id].Vers[n])
				v.Hash, v.UniqueId, v.Size = rapid.SampledFrom(hashPool).Draw(t, "hash"), "other", v.Size+1000
				v.Ts++
				m.UpdateVer(id, v)
				if err := e.MetaRepo.UpdateVersion(id, CopyVersion(v)); err != nil {
					t.Fatalf("update version %d of %q: %v", n, id, err)
				}
				c.Logf("%s %d updated", id, n)
			case op <= 1 || m.Objs[id] == nil:
				md := &msg.Metadata{Name: id, Bucket: "b", CreateTime: 1, UpdateTime: 1}
				if m.AddMeta(id, md) == OK {
					if err := e.MetaRepo.AddMetadata(id, md); err != nil {
						t.Fatalf("add %q: %v", id, err)
					}
				}
			case op <= 5:
				uid++
				v := &msg.Version{Hash: rapid.SampledFrom(hashPool).Draw(t, "hash"), UniqueId: fmt.Sprint("u", uid),
					Ts: int64(rapid.IntRange(1, 5).Draw(t, "ts")), Size: int64(uid), Locate: []string{"s1", "s2", "s3"}}
				if rapid.IntRange(0, 4).Draw(t, "future") == 0 {
					v.Ts = time.Now().UnixMilli() + 1000000
				}
				m.AddVer(id, v)
				if err := e.MetaRepo.AddVersion(id, v); err != nil {
					t.Fatalf("add version: %v", err)
				}
				c.Logf("%s+%s", id, v.Hash)
			case op == 6:
				n := genVer(t, m, id)
				if m.Objs[id].Vers[n] == nil {
					continue
				}
				gone++
				m.RemoveVer(id, n)
				if err := e.Meta.RemoveVersion(id, int(n)); err != nil {
					t.Fatalf("remove version: %v", err)
				}
				c.Logf("%s-%d", id, n)
			case op == 7:
				gone += len(m.Objs[id].Vers)
				m.RemoveMeta(id)
				if err := e.Meta.RemoveMetadata(id); err != nil {
					t.Fatalf("remove object: %v", err)
				}
				c.Logf("-%s", id)
			case op == 8:
				gone += len(m.Objs[id].Vers)
				m.RemoveAllVer(id)
				if err := e.Meta.RemoveVersion(id, -1); err != nil {
					t.Fatalf("remove all versions: %v", err)
				}
				c.Logf("--%s", id)
			case op <= 10:
				h := rapid.SampledFrom(hashPool).Draw(t, "hash")
				idx := rapid.IntRange(0, 2).Draw(t, "idx")
				val := rapid.SampledFrom([]string{"n1", "n2", "s1"}).Draw(t, "loc")
				if err := e.Meta.UpdateLocates(h, idx, val); err != nil {
					t.Fatalf("location %d of hash %s: %v", idx, h, err)
				}
				vs := m.ByHash(h)
				if len(vs) > 1 {
					hits++
				}
				c.Logf("loc %s[%d]=%s (%d)", h, idx, val, len(vs))
				for id, o := range m.Objs {
					for s, v := range o.Vers {
						if v.Hash != h {
							continue
						}
						r, err := e.Meta.GetVersion(id, int(s))
						if err != nil {
							t.Fatalf("version %d of %q: %v", s, id, err)
						}
						// the time of the change is the server's to choose
						v.Ts = r.Ts
						v.Locate[idx] = val
					}
				}
			default:
				h := rapid.SampledFrom(hashPool).Draw(t, "hash")
				lookup(t, e, m, h)
			}
		}
		for _, h := range append([]string{"none"}, hashPool...) {
			lookup(t, e, m, h)
		}
		if d := e.Check(m, ids...); d != "" {
			t.Fatal(d)
		}
		if hits > 0 || gone > 0 {
			c.NonTrivial()
		}
		c.ClassIf(hits > 0, "location update of several versions")
		c.ClassIf(gone > 0, "removals")
	})
}

func lookup(t *rapid.T, e *Env, m *Model, h string) {
	var got []*msg.Version
	if rapid.Bool().Draw(t, "rpc") {
		r, err := e.Api.GetVersionsByHash(context.Background(), &pb.MetaReq{Hash: h})
		if err != nil {
			t.Fatalf("lookup of %q: %v", h, err)
		}
		got = decodeVersions(t, r.Data)
	} else {
		var err error
		if got, err = e.Meta.FindByHash(h); err != nil {
			t.Fatalf("lookup of %q: %v", h, err)
		}
	}
	if d := EqVersionSet(got, m.ByHash(h)); d != "" {
		t.Fatalf("lookup of %q: %s", h, d)
	}
}

func genBucket(t *rapid.T) *msg.Bucket {
	b := &msg.Bucket{
		Name:           rapid.SampledFrom(bktPool).Draw(t, "bname"),
		Versioning:     rapid.Bool().Draw(t, "versioning"),
		Readonly:       rapid.Bool().Draw(t, "readonly"),
		Compress:       rapid.Bool().Draw(t, "compress"),
		StoreStrategy:  int8(rapid.IntRange(0, 2).Draw(t, "strategy")),
		DataShards:     int32(rapid.IntRange(0, 6).Draw(t, "ds")),
		ParityShards:   int32(rapid.IntRange(0, 6).Draw(t, "ps")),
		VersionRemains: int32(rapid.IntRange(0, 100).Draw(t, "remains")),
	}
	for i := rapid.IntRange(0, 2).Draw(t, "npol"); i > 0; i-- {
		b.Policies = append(b.Policies, rapid.SampledFrom([]string{"p", "q:*"}).Draw(t, "pol"))
	}
	return b
}

// TestVerif_M04_buckets drives the bucket repositories and service.
func TestVerif_M04_buckets(t *testing.T) {
	vh.Check(t, vh.N(1500, 16000), "a bucket was updated or removed and a listing with a prefix was compared", func(t *rapid.T, c *vh.Case) {
		e := New(nil, nil)
		defer e.Close()
		batch := e.BatchBuckets()
		m := NewModel()
		changed, listed := 0, 0
		steps := rapid.IntRange(1, 50).Draw(t, "steps")
		for i := 0; i < steps; i++ {
			b := genBucket(t)
			ts := rapid.Int64Range(0, 30).Draw(t, "ts")
			via := rapid.IntRange(0, 3).Draw(t, "via")
			var w usecase.BucketWritableRepo = e.Bucket
			if via == 0 {
				w = batch
			}
			var got, want Err
			var what string
			switch op := rapid.IntRange(0, 9).Draw(t, "op"); op {
			case 0, 1, 2:
				if via == 3 { // service: its own clock
					before := time.Now().UnixMilli()
					sent := CopyBucket(b)
					got = ClassOf(e.Buckets.Create(sent))
					want = m.CreateBucket(b)
					what = fmt.Sprintf("create %q by service", b.Name)
					if want == OK && got == OK {
						r, err := e.Buckets.Get(b.Name)
						if err != nil || r.CreateTime < before || r.CreateTime > time.Now().UnixMilli() || r.UpdateTime != r.CreateTime {
							t.Fatalf("%s at %d: %+v, %v", what, before, r, err)
						}
						m.Buckets[b.Name].CreateTime, m.Buckets[b.Name].UpdateTime = r.CreateTime, r.UpdateTime
					}
					break
				}
				b.CreateTime, b.UpdateTime = ts, ts+rapid.Int64Range(0, 3).Draw(t, "up")
				want = m.CreateBucket(b)
				got = ClassOf(w.Create(CopyBucket(b)))
				what = fmt.Sprintf("create %q", b.Name)
			case 3, 4:
				old := m.Buckets[b.Name]
				if via == 3 && old != nil && old.UpdateTime < 1000 {
					sent := CopyBucket(b)
					before := time.Now().UnixMilli()
					got = ClassOf(e.Buckets.Update(sent))
					what = fmt.Sprintf("update %q by service", b.Name)
					r, err := e.Buckets.Get(b.Name)
					if err != nil || r.UpdateTime < before || r.UpdateTime > time.Now().UnixMilli() {
						t.Fatalf("%s at %d: %+v, %v", what, before, r, err)
					}
					b.UpdateTime = r.UpdateTime
					want = m.UpdateBucket(b)
					changed++
					break
				}
				b.CreateTime, b.UpdateTime = ts+100, ts
				want = m.UpdateBucket(b)
				got = ClassOf(w.Update(CopyBucket(b)))
				what = fmt.Sprintf("update %q ts %d", b.Name, ts)
				if want == OK {
					changed++
				}
				c.ClassIf(want == Old, "stale update")
			case 5:
				if m.Buckets[b.Name] == nil {
					// removing nothing may be answered either way, and changes nothing
					_ = w.Remove(b.Name)
					continue
				}
				changed++
				want = m.RemoveBucket(b.Name)
				if via == 3 {
					got = ClassOf(e.Buckets.Remove(b.Name))
				} else {
					got = ClassOf(w.Remove(b.Name))
				}
				what = fmt.Sprintf("remove %q", b.Name)
			case 6, 7:
				r, err := e.Buckets.Get(b.Name)
				if wb := m.Buckets[b.Name]; wb == nil && ClassOf(err) != NotFound || wb != nil && (err != nil || !EqBucket(r, wb)) {
					t.Fatalf("bucket %q: %+v, %v, want %+v", b.Name, r, err, wb)
				}
				// what the caller does with the answer must not matter
				if err == nil {
					r.Name, r.UpdateTime = "changed", 999
				}
				continue
			default:
				prefix := rapid.SampledFrom([]string{"", "b", "ba", "b.", "日", "zz", "c"}).Draw(t, "prefix")
				size := rapid.IntRange(1, 8).Draw(t, "size")
				names := m.BucketNames(prefix)
				lst, total, err := e.Buckets.List(prefix, size)
				if err != nil {
					t.Fatalf("list %q: %v", prefix, err)
				}
				if total != len(names) {
					t.Fatalf("list %q, %d at most: %d buckets in all, %q have the prefix", prefix, size, total, names)
				}
				if len(names) > size {
					names = names[:size]
				}
				if len(lst) != len(names) {
					t.Fatalf("list %q size %d: %d entries, want %v", prefix, size, len(lst), names)
				}
				for i, n := range names {
					if !EqBucket(lst[i], m.Buckets[n]) {
						t.Fatalf("list %q: entry %d is %+v, want %+v", prefix, i, *lst[i], *m.Buckets[n])
					}
				}
				if prefix != "" && len(names) > 0 {
					listed++
				}
				continue
			}
			c.Logf("%s=%s", what, got)
			if got != want {
				t.Fatalf("%s: answered %s, want %s", what, got, want)
			}
		}
		if d := e.CheckBuckets(m, bktPool...); d != "" {
			t.Fatalf("at the end: %s", d)
		}
		var iter []string
		if err := e.Buckets.Foreach(func(k, v []byte) error {
			var d msg.Bucket
			if _, err := d.UnmarshalMsg(v); err != nil {
				return err
			}
			if !EqBucket(&d, m.Buckets[string(k)]) {
				return fmt.Errorf("bucket %q is %+v, want %+v", k, d, m.Buckets[string(k)])
			}
			iter = append(iter, string(k))
			return nil
		}); err != nil && (ClassOf(err) != NotFound || len(m.Buckets) > 0) {
			t.Fatalf("iteration: %v", err)
		}
		if w := m.BucketNames(""); strings.Join(iter, "\n") != strings.Join(w, "\n") {
			t.Fatalf("iteration over %q, want %q", iter, w)
		}
		if changed > 0 && listed > 0 {
			c.NonTrivial()
		}
	})
}
