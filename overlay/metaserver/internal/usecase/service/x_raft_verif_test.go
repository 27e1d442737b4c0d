package service_test

import (
	"common/proto/msg"
	"common/proto/pb"
	"common/util"
	"context"
	"errors"
	"fmt"
	"metaserver/internal/entity"
	"metaserver/internal/usecase"
	"metaserver/internal/usecase/raftimpl"
	. "metaserver/internal/verifenv"
	"net/http"
	"net/url"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/hashicorp/raft"
	"pgregory.net/rapid"
	"verifharness/fakeetcd"
	"verifharness/vh"
)

// command is one replicated command and the answer the model gives.
type command struct {
	log   *raft.Log
	what  string
	want  Err
	seq   uint64 // number of an added version
	weird bool   // malformed: only has to be answered the same way without changing anything
}

func encLog(index uint64, d *entity.RaftData) *raft.Log {
	bt, err := util.EncodeMsgp(d)
	if err != nil {
		panic(err)
	}
	return &raft.Log{Index: index, Term: 1, Type: raft.LogCommand, Data: bt}
}

// genCommand draws a command and applies it to the model. uid gives unique ids.
func genCommand(t *rapid.T, m *Model, index uint64, uid *int) *command {
	id := genID(t, m)
	ts := rapid.Int64Range(0, 30).Draw(t, "ts")
	c := &command{}
	d := &entity.RaftData{Name: id}
	switch op := rapid.IntRange(0, 21).Draw(t, "op"); op {
	case 0, 1, 2:
		d.Type, d.Dest, d.Metadata = entity.LogInsert, entity.DestMetadata, genMeta(t)
		d.Metadata.CreateTime, d.Metadata.UpdateTime = rapid.SampledFrom([]int64{ts, ts, 0}).Draw(t, "created"), ts
		c.want = m.AddMeta(id, d.Metadata)
		c.what = fmt.Sprintf("add object %q", id)
	case 3:
		d.Type, d.Dest, d.Metadata = entity.LogUpdate, entity.DestMetadata, genMeta(t)
		d.Metadata.UpdateTime = ts + 10
		c.want = m.UpdateMeta(id, d.Metadata)
		c.what = fmt.Sprintf("update object %q ts %d", id, ts+10)
	case 4:
		d.Type, d.Dest = entity.LogRemove, entity.DestMetadata
		c.want = m.RemoveMeta(id)
		c.what = fmt.Sprintf("remove object %q", id)
	case 5, 6, 7, 8, 9:
		d.Type, d.Dest, d.Version = entity.LogInsert, entity.DestVersion, genVersion(t)
		*uid++
		d.Version.UniqueId, d.Version.Ts = fmt.Sprintf("u%d", *uid), ts
		c.seq, c.want = m.AddVer(id, d.Version)
		c.what = fmt.Sprintf("add version u%d to %q", *uid, id)
	case 10, 11:
		d.Type, d.Dest, d.Version = entity.LogUpdate, entity.DestVersion, genVersion(t)
		d.Sequence = genVer(t, m, id)
		d.Version.Ts = ts + 5
		// the number of the log counts
		x := CopyVersion(d.Version)
		x.Sequence = d.Sequence
		c.want = m.UpdateVer(id, x)
		c.what = fmt.Sprintf("update version %d of %q ts %d", d.Sequence, id, ts+5)
	case 12, 13:
		d.Type, d.Dest, d.Sequence = entity.LogRemove, entity.DestVersion, genVer(t, m, id)
		if m.Objs[id] == nil {
			return genCommand(t, m, index, uid)
		}
		c.want = m.RemoveVer(id, d.Sequence)
		c.what = fmt.Sprintf("remove version %d of %q", d.Sequence, id)
	case 14:
		d.Type, d.Dest, d.Sequence = entity.LogRemove, entity.DestVersionAll, ^uint64(0)
		if m.Objs[id] == nil {
			return genCommand(t, m, index, uid)
		}
		c.want = m.RemoveAllVer(id)
		c.what = fmt.Sprintf("remove all versions of %q", id)
	case 15, 16:
		d.Type, d.Dest, d.Version = entity.LogMigrate, entity.DestVersion, genVersion(t)
		*uid++
		d.Version.UniqueId, d.Version.Ts = fmt.Sprintf("u%d", *uid), ts
		d.Version.Sequence = uint64(rapid.IntRange(1, 12).Draw(t, "seq"))
		if o := m.Objs[id]; o != nil && len(o.Vers) > 0 && rapid.Bool().Draw(t, "again") {
			// what has been received already
			x := o.Vers[genVer(t, m, id)]
			if x != nil {
				d.Version.UniqueId, d.Version.Sequence = x.UniqueId, x.Sequence
			}
		}
		c.want = m.PutVer(id, d.Version)
		c.what = fmt.Sprintf("receive version %d (%s) of %q", d.Version.Sequence, d.Version.UniqueId, id)
	case 17, 18:
		d.Dest, d.Bucket = entity.DestBucket, genBucket(t)
		d.Name = d.Bucket.Name
		switch rapid.IntRange(0, 3).Draw(t, "bop") {
		case 0, 1:
			d.Type = entity.LogInsert
			d.Bucket.CreateTime, d.Bucket.UpdateTime = ts, ts
			c.want = m.CreateBucket(d.Bucket)
			c.what = fmt.Sprintf("add bucket %q", d.Name)
		case 2:
			d.Type = entity.LogUpdate
			d.Bucket.UpdateTime = ts + 10
			c.want = m.UpdateBucket(d.Bucket)
			c.what = fmt.Sprintf("update bucket %q", d.Name)
		case 3:
			d.Type, d.Bucket = entity.LogRemove, nil
			c.want = m.RemoveBucket(d.Name)
			c.what = fmt.Sprintf("remove bucket %q", d.Name)
		}
	case 19, 20:
		d.Type, d.Dest, d.Name = entity.LogUpdate, entity.DestLocate, rapid.SampledFrom(hashPool).Draw(t, "hash")
		if vs := m.ByHash(d.Name); len(vs) == 0 && len(m.Objs) > 0 {
			for _, o := range m.Objs {
				if l := o.Last(); l != nil {
					d.Name = minStr(d.Name, l.Hash)
				}
			}
		}
		idx := rapid.IntRange(0, 4).Draw(t, "index")
		d.Sequence = uint64(idx)
		d.Version = &msg.Version{Ts: ts, Locate: []string{fmt.Sprintf("moved-%d", index)}}
		c.want = m.UpdateLocate(d.Name, idx, d.Version.Locate[0], ts)
		c.what = fmt.Sprintf("locate shard %d of %q", idx, d.Name)
	case 21:
		c.weird = true
		l := &raft.Log{Index: index, Term: 1, Type: raft.LogCommand}
		switch rapid.IntRange(0, 5).Draw(t, "weird") {
		case 0:
		case 1:
			l.Data = rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "junk")
			if (&entity.RaftData{}).Type == 0 {
				var x entity.RaftData
				if util.DecodeMsgp(&x, l.Data) == nil {
					l.Data = []byte{0xc1}
				}
			}
		case 2:
			l = encLog(index, &entity.RaftData{Type: entity.LogInsert, Dest: 100, Name: id, Metadata: genMeta(t)})
		case 3:
			l = encLog(index, &entity.RaftData{Type: entity.LogMigrate, Dest: entity.DestMetadata, Name: id, Metadata: genMeta(t)})
		case 4:
			l = encLog(index, &entity.RaftData{Type: entity.LogInsert, Dest: entity.DestMetadata, Name: id, Metadata: genMeta(t)})
			l.Type = raft.LogNoop
		case 5:
			l = encLog(index, &entity.RaftData{Type: entity.LogInsert, Dest: entity.DestMetadata, Name: "b/zz", Metadata: genMeta(t)})
			l.Data = l.Data[:rapid.IntRange(1, len(l.Data)-1).Draw(t, "cut")]
		}
		c.what = fmt.Sprintf("malformed log (type %d, %d bytes)", l.Type, len(l.Data))
		c.log = l
		return c
	}
	c.log = encLog(index, d)
	return c
}

func minStr(a, b string) string {
	if a < b {
		return a
	}
	return b
}

type answer struct {
	ok   bool
	err  Err
	text string
	data any
}

func answerOf(r any) answer {
	switch r := r.(type) {
	case nil:
		return answer{err: Other, text: "no answer"}
	case *raftimpl.FSMResponse:
		if r.Ok() {
			return answer{ok: true, data: r.Data}
		}
		return answer{err: ClassOf(r.ToError()), text: r.ToError().Error()}
	case error:
		return answer{err: Other, text: r.Error()}
	}
	return answer{err: Other, text: fmt.Sprintf("%T", r)}
}

// apply gives one command alone to the state machine, or all of them in batches.
func apply(fsm raft.FSM, logs []*raft.Log) []any {
	if b, ok := fsm.(raft.BatchingFSM); ok {
		return b.ApplyBatch(logs)
	}
	res := make([]any, len(logs))
	for i, l := range logs {
		res[i] = fsm.Apply(l)
	}
	return res
}

func cmpAnswer(c *command, who string, a answer) string {
	if c.weird {
		if a.ok && len(c.log.Data) > 0 {
			return fmt.Sprintf("%s: %s answered ok", c.what, who)
		}
		return ""
	}
	want := c.want
	if want == Exists {
		// a command repeated by a client counts as done
		want = OK
	}
	if a.ok != (want == OK) || !a.ok && a.err != want {
		return fmt.Sprintf("%s: %s answered ok=%v %s (%s), want %s", c.what, who, a.ok, a.err, a.text, c.want)
	}
	if c.want == OK && c.seq > 0 && a.data != c.seq {
		return fmt.Sprintf("%s: %s answered number %v, want %d", c.what, who, a.data, c.seq)
	}
	return ""
}

// TestVerif_M05_batches applies one log to several state machines, cut into
// different batches and with reads in between, and one after a restart.
func TestVerif_M05_batches(t *testing.T) {
	vh.Check(t, vh.N(250, 6000), "the log has at least 8 commands, a batch of at least 3 and an effective version command", func(t *rapid.T, c *vh.Case) {
		one, many, late := New(nil, nil), New(nil, nil), New(nil, nil)
		defer one.Close()
		defer many.Close()
		defer func() { late.Close() }()
		m := NewModel()
		var uid int
		var cmds []*command
		vers := 0
		n := rapid.IntRange(1, 60).Draw(t, "commands")
		for i := 0; i < n; i++ {
			cmd := genCommand(t, m, uint64(i+1), &uid)
			c.Logf("%s=%s", cmd.what, cmd.want)
			cmds = append(cmds, cmd)
			if cmd.seq > 0 && cmd.want == OK {
				vers++
			}
			c.ClassIf(cmd.weird, "malformed")
		}
		logs := make([]*raft.Log, n)
		for i := range cmds {
			l := *cmds[i].log
			logs[i] = &l
		}
		for i, cmd := range cmds {
			if d := cmpAnswer(cmd, "single apply", answerOf(one.FSM.Apply(logs[i]))); d != "" {
				t.Fatalf("%s", d)
			}
		}
		if d := one.Check(m, idPool...); d != "" {
			t.Fatalf("applied one by one: %s", d)
		}
		big := 0
		for i := 0; i < n; {
			k := rapid.IntRange(1, 12).Draw(t, "batch")
			if i+k > n {
				k = n - i
			}
			if k > big {
				big = k
			}
			for j, r := range apply(many.FSM, logs[i:i+k]) {
				if d := cmpAnswer(cmds[i+j], fmt.Sprintf("batch of %d", k), answerOf(r)); d != "" {
					t.Fatalf("%s", d)
				}
			}
			i += k
			// fill the cache
			for _, id := range idPool {
				if rapid.IntRange(0, 2).Draw(t, "read") == 0 {
					_, _, _ = many.Meta.GetMetadata(id, 0, true)
					_, _ = many.Meta.GetVersion(id, 1)
				}
			}
		}
		if d := many.Check(m, idPool...); d != "" {
			t.Fatalf("applied in batches: %s", d)
		}
		// a server that stopped somewhere, and is given the whole log again when it starts
		stop := rapid.IntRange(0, n).Draw(t, "stop")
		for i := 0; i < stop; {
			k := rapid.SampledFrom([]int{1, 2, 4, 9}).Draw(t, "batch1")
			if i+k > stop {
				k = stop - i
			}
			if k == 1 {
				late.FSM.Apply(logs[i])
			} else {
				apply(late.FSM, logs[i:i+k])
			}
			i += k
		}
		if err := late.Storage.Stop(); err != nil {
			t.Fatalf("stop: %v", err)
		}
		late.Wire(Open(filepath.Join(late.Dir, "meta.db")), nil, nil)
		for i := 0; i < n; {
			k := rapid.IntRange(1, 20).Draw(t, "batch2")
			if i+k > n {
				k = n - i
			}
			res := apply(late.FSM, logs[i:i+k])
			for j, r := range res {
				// answers of replayed commands are given to nobody
				if i+j >= stop {
					if d := cmpAnswer(cmds[i+j], fmt.Sprintf("after a restart at %d", stop), answerOf(r)); d != "" {
						t.Fatalf("%s", d)
					}
				}
			}
			i += k
		}
		if d := late.Check(m, idPool...); d != "" {
			t.Fatalf("restarted after %d of %d commands: %s", stop, n, d)
		}
		c.ClassIf(stop > 0 && stop < n, "restart")
		if n >= 8 && big >= 3 && vers > 0 {
			c.NonTrivial()
		}
	})
}

// raftBusy tells errors of a cluster that has no steady leader.
func raftBusy(err error) bool {
	for _, e := range []error{raft.ErrLeadershipLost, raft.ErrNotLeader, raft.ErrEnqueueTimeout, raft.ErrLeadershipTransferInProgress, raft.ErrAbortedByRestore, raft.ErrRaftShutdown} {
		if err != nil && (errors.Is(err, e) || strings.Contains(err.Error(), e.Error())) {
			return true
		}
	}
	return errors.Is(err, usecase.ErrReadOnly)
}

// TestVerif_M05_cluster writes through the leader of a real cluster, restarts
// replicas, and compares every replica with the model. Replicas refuse writes.
func TestVerif_M05_cluster(t *testing.T) {
	st := fakeetcd.New()
	cli := st.Client()
	PutSlots(cli, "g", "node0", []string{"0-16384"})
	cl := NewCluster(3, cli, cli)
	defer cl.Close()
	caseNo := 0
	vh.Check(t, vh.N(12, 200), "at least 5 commands were replicated, one of them a version", func(t *rapid.T, c *vh.Case) {
		caseNo++
		ld := cl.Leader()
		if ld == nil {
			c.Class("no leader")
			return
		}
		// every case has names of its own
		pre := fmt.Sprintf("c%d/", caseNo)
		m := NewModel()
		var done, vers int
		var names []string
		for _, id := range idPool[:5] {
			names = append(names, pre+id)
		}
		pick := func() string { return rapid.SampledFrom(names).Draw(t, "id") }
		steps := rapid.IntRange(10, 50).Draw(t, "steps")
		for i := 0; i < steps; i++ {
			id := pick()
			tick()
			var err error
			var want Err
			var what string
			switch rapid.IntRange(0, 13).Draw(t, "op") {
			case 0, 1, 2:
				d := genMeta(t)
				err = ld.Meta.AddMetadata(id, d)
				want = m.AddMeta(id, d)
				if want == Exists {
					want = OK
				}
				what = fmt.Sprintf("add object %q", id)
			case 3:
				d := genMeta(t)
				err = ld.Meta.UpdateMetadata(id, d)
				want = m.UpdateMeta(id, d)
				what = fmt.Sprintf("update object %q", id)
			case 4, 5, 6, 7:
				d := genVersion(t)
				d.Hash = pre + d.Hash
				var n int
				n, err = ld.Meta.AddVersion(id, d)
				x := CopyVersion(d)
				num, w := m.AddVer(id, x)
				want = w
				what = fmt.Sprintf("add version to %q", id)
				if err == nil && w == OK {
					vers++
					if n != int(num) {
						t.Fatalf("%s: number %d, want %d", what, n, num)
					}
				}
			case 8:
				d := genVersion(t)
				n := genVer(t, m, id)
				x := d
				err = ld.Meta.UpdateVersion(id, int(n), d)
				x.Sequence = n
				want = m.UpdateVer(id, x)
				what = fmt.Sprintf("update version %d of %q", n, id)
			case 9:
				if m.Objs[id] == nil {
					continue
				}
				n := genVer(t, m, id)
				err = ld.Meta.RemoveVersion(id, int(n))
				want = m.RemoveVer(id, n)
				what = fmt.Sprintf("remove version %d of %q", n, id)
			case 10:
				err = ld.Meta.RemoveMetadata(id)
				want = m.RemoveMeta(id)
				what = fmt.Sprintf("remove object %q", id)
			case 11:
				var o = m.Objs[id]
				if o == nil || o.Last() == nil {
					continue
				}
				h, idx := o.Last().Hash, rapid.IntRange(0, 3).Draw(t, "index")
				loc := fmt.Sprintf("moved-%d", i)
				before := time.Now().UnixMilli()
				err = ld.Meta.UpdateLocates(h, idx, loc)
				want = m.UpdateLocate(h, idx, loc, before)
				if err == nil && want == OK {
					// the time is the server's
					got, inner := ld.Meta.FindByHash(h)
					if inner != nil {
						t.Fatalf("lookup of %q: %v", h, inner)
					}
					for _, g := range got {
						for _, v := range m.ByHash(h) {
							if v.UniqueId == g.UniqueId && g.Ts >= before {
								v.Ts = g.Ts
							}
						}
					}
				}
				what = fmt.Sprintf("locate shard %d of %q", idx, h)
			case 12:
				nd := cl.Nodes[rapid.IntRange(0, len(cl.Nodes)-1).Draw(t, "node")]
				if nd == ld {
					// reads of any node in between must not matter
					_ = nd.Check(m, names...)
					continue
				}
				if rapid.IntRange(0, 2).Draw(t, "restart") == 0 {
					cl.Stop(nd)
					cl.Start(nd)
					c.Class("restart")
					c.Logf("restart %s", nd.ID)
				} else {
					for _, n := range names {
						_, _, _ = nd.Meta.GetMetadata(n, 0, true)
					}
				}
				continue
			case 13:
				nd := cl.Nodes[rapid.IntRange(0, len(cl.Nodes)-1).Draw(t, "node")]
				if err := nd.Raft.Raft.Snapshot().Error(); err == nil {
					c.Class("snapshot")
					c.Logf("snapshot of %s", nd.ID)
				}
				continue
			}
			if raftBusy(err) {
				c.Class("unsteady cluster")
				return
			}
			c.Logf("%s=%s", what, ClassOf(err))
			if ClassOf(err) != want {
				t.Fatalf("%s: answered %s (%v), want %s", what, ClassOf(err), err, want)
			}
			done++
		}
		if !cl.Settle() {
			if cl.Lost != "" {
				t.Fatalf("%s", cl.Lost)
			}
			c.Class("unsteady cluster")
			return
		}
		for _, nd := range cl.Nodes {
			if d := checkPart(nd.Env, m, pre, names); d != "" {
				t.Fatalf("%s (leader %v): %s", nd.ID, nd == ld, d)
			}
		}
		// replicas refuse every write
		for _, nd := range cl.Nodes {
			if nd.Raft.IsLeader() {
				continue
			}
			nd.Use(cl)
			refused(t, nd, names[0], pre)
		}
		if !cl.Settle() {
			if cl.Lost != "" {
				t.Fatalf("%s", cl.Lost)
			}
			c.Class("unsteady cluster")
			return
		}
		for _, nd := range cl.Nodes {
			if d := checkPart(nd.Env, m, pre, names); d != "" {
				t.Fatalf("%s after refused writes: %s", nd.ID, d)
			}
		}
		if done >= 5 && vers > 0 {
			c.NonTrivial()
		}
	})
}

// checkPart compares the objects of one case.
func checkPart(e *Env, m *Model, pre string, names []string) string {
	for _, n := range names {
		o := m.Objs[n]
		meta, ver, err := e.Meta.GetMetadata(n, 0, true)
		if o == nil {
			if ClassOf(err) != NotFound {
				return fmt.Sprintf("object %q: %+v, %v, want not found", n, meta, err)
			}
			continue
		}
		if err != nil || !EqMeta(meta, &o.Meta) {
			return fmt.Sprintf("object %q: %+v, %v, want %+v", n, meta, err, o.Meta)
		}
		if last := o.Last(); (last == nil) != (ver == nil) || last != nil && !EqVersion(last, ver) {
			return fmt.Sprintf("latest version of %q: %+v, want %+v", n, ver, last)
		}
		lst, total, err := e.Meta.ListVersions(n, 1, 1000)
		if err != nil || total != len(o.Vers) {
			return fmt.Sprintf("versions of %q: %s, %v, want %v", n, Vs(lst), err, o.Numbers())
		}
		var want []*msg.Version
		for _, s := range o.Numbers() {
			want = append(want, o.Vers[s])
			got, err := e.Meta.GetVersion(n, int(s))
			if err != nil || !EqVersion(got, o.Vers[s]) {
				return fmt.Sprintf("version %d of %q: %+v, %v, want %+v", s, n, got, err, *o.Vers[s])
			}
		}
		if d := EqVersionSet(lst, want); d != "" {
			return fmt.Sprintf("versions of %q: %s", n, d)
		}
	}
	for _, h := range hashPool {
		got, err := e.Meta.FindByHash(pre + h)
		if err != nil {
			return fmt.Sprintf("lookup of %q: %v", pre+h, err)
		}
		if d := EqVersionSet(got, m.ByHash(pre+h)); d != "" {
			return fmt.Sprintf("lookup of %q: %s", pre+h, d)
		}
	}
	return ""
}

// refused sends writes to a replica through its network interfaces.
func refused(t *rapid.T, nd *Node, id, pre string) {
	cc := Dial(nd.Addr)
	defer cc.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	api := pb.NewMetadataApiClient(cc)
	v := genVersion(t)
	v.Hash = pre + v.Hash
	_, e1 := api.SaveMetadata(ctx, &pb.Metadata{Id: pre + "new", Msgpack: enc(genMeta(t))})
	_, e2 := api.SaveVersion(ctx, &pb.Metadata{Id: id, Msgpack: enc(v)})
	_, e3 := api.UpdateVersion(ctx, &pb.Metadata{Id: id, Version: 1, Msgpack: enc(v)})
	_, e4 := api.RemoveVersion(ctx, &pb.MetaReq{Id: id, Version: 1})
	_, e5 := api.SaveBucket(ctx, &pb.Metadata{Id: pre + "bucket", Msgpack: enc(genBucket(t))})
	for i, err := range []error{e1, e2, e3, e4, e5} {
		if err == nil && !nd.Raft.IsLeader() {
			t.Fatalf("%s is no leader and accepted gRPC write %d", nd.ID, i+1)
		}
	}
	for _, r := range [][3]string{
		{"POST", "/metadata/" + url.PathEscape(id), `{"name":"x","bucket":"b"}`},
		{"PUT", "/metadata/" + url.PathEscape(id), `{"name":"x","bucket":"b"}`},
		{"DELETE", "/metadata/" + url.PathEscape(id), ""},
		{"POST", "/metadata_version/" + url.PathEscape(id), `{"storeStrategy":1,"dataShards":1,"shardSize":1,"size":1,"hash":"h","locate":["a"]}`},
		{"PUT", "/metadata_version/" + url.PathEscape(id) + "?version=1", `{"storeStrategy":1,"dataShards":1,"shardSize":1,"size":1,"hash":"h","locate":["a"]}`},
		{"DELETE", "/metadata_version/" + url.PathEscape(id) + "?version=1", ""},
		{"PATCH", "/version/locate", fmt.Sprintf(`{"locate":"z","hash":%q,"locateIndex":0}`, pre+"h1")},
		{"POST", "/bucket", `{"name":"bb"}`},
		{"PUT", "/bucket/bb", `{"name":"bb"}`},
		{"DELETE", "/bucket/bb", ""},
	} {
		req, err := http.NewRequestWithContext(ctx, r[0], "http://"+nd.Addr+r[1], strings.NewReader(r[2]))
		if err != nil {
			t.Fatalf("%v", err)
		}
		req.Header.Set("Content-Type", "application/json")
		resp, err := http.DefaultClient.Do(req)
		if err != nil {
			t.Fatalf("%s %s: %v", r[0], r[1], err)
		}
		Discard(resp)
		if resp.StatusCode/100 == 2 && !nd.Raft.IsLeader() {
			t.Fatalf("%s is no leader and answered %s %s with %d", nd.ID, r[0], r[1], resp.StatusCode)
		}
	}
}
