package service_test

import (
	"common/cst"
	"common/hashslot"
	"common/proto/msg"
	"common/proto/pb"
	"common/util"
	"context"
	"errors"
	"fmt"
	"metaserver/internal/entity"
	"metaserver/internal/usecase"
	"metaserver/internal/usecase/pool"
	"metaserver/internal/usecase/raftimpl"
	. "metaserver/internal/verifenv"
	"net"
	"net/http"
	"net/rpc"
	"net/url"
	"os"
	osexec "os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
	"verifharness/fakeetcd"
	"verifharness/vh"
)

// A migration needs two servers, and much of a server belongs to its process: the checks run "s1"
// themselves and "s2" in a child process, which reaches the one etcd and the fault injection of its
// parent by RPC.

// host is one server of a migration.
type host interface {
	// Reset starts it anew with this content.
	Reset(slots []string, m *Model) error
	// Restart ends and starts it again with its files.
	Restart() error
	Check(m *Model) string
	HasObject(id string, o *Object) string
	HasBucket(b *msg.Bucket) string
	// Exec executes a command at its repositories.
	Exec(d *entity.RaftData) Err
	Status() (normal bool)
	Addr() string
	ID() string
}

// server is a host in this process.
type server struct {
	id    string
	kv    clientv3.KV
	item  func() error
	dir   string
	env   *Env
	front *Front
	addr  string
	slots []string
}

// meta2 and buckets2 see every received record first.
type meta2 struct {
	usecase.IMetadataService
	item func() error
}

func (m meta2) ReceiveMetadata(id string, d *msg.Metadata) error {
	if err := m.item(); err != nil {
		return err
	}
	return m.IMetadataService.ReceiveMetadata(id, d)
}

func (m meta2) ReceiveVersion(id string, d *msg.Version) error {
	if err := m.item(); err != nil {
		return err
	}
	return m.IMetadataService.ReceiveVersion(id, d)
}

type buckets2 struct {
	usecase.BucketService
	item func() error
}

// writing is called before every write by a client at the server in this process.
var writing atomic.Pointer[func()]

func beginWrite() {
	if f := writing.Load(); f != nil {
		(*f)()
	}
}

func (m meta2) AddMetadata(id string, d *msg.Metadata) error {
	beginWrite()
	return m.IMetadataService.AddMetadata(id, d)
}

func (m meta2) AddVersion(id string, d *msg.Version) (int, error) {
	beginWrite()
	return m.IMetadataService.AddVersion(id, d)
}

func (m meta2) UpdateMetadata(id string, d *msg.Metadata) error {
	beginWrite()
	return m.IMetadataService.UpdateMetadata(id, d)
}

func (m meta2) UpdateVersion(id string, n int, d *msg.Version) error {
	beginWrite()
	return m.IMetadataService.UpdateVersion(id, n, d)
}

func (m meta2) RemoveVersion(id string, n int) error {
	beginWrite()
	return m.IMetadataService.RemoveVersion(id, n)
}

func (b buckets2) Create(d *msg.Bucket) error {
	beginWrite()
	return b.BucketService.Create(d)
}

func (b buckets2) Receive(d *msg.Bucket) error {
	if err := b.item(); err != nil {
		return err
	}
	return b.BucketService.Receive(d)
}

func (s *server) start() error {
	var l net.Listener
	var err error
	if s.addr == "" {
		l, _ = Listen()
	} else {
		for i := 0; ; i++ {
			if l, err = net.Listen("tcp", s.addr); err == nil {
				break
			}
			if i > 500 {
				return err
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	s.addr = l.Addr().String()
	_, port, _ := net.SplitHostPort(s.addr)
	cfg := ServerConfig(s.dir, s.id, port, s.slots)
	rw := raftimpl.NewDisabledRaft()
	UsePool(cfg, s.kv, &clientv3.Client{KV: s.kv}, rw)
	s.front = s.env.ServeWith(l, cfg, rw, meta2{s.env.Meta, s.item}, buckets2{s.env.Buckets, s.item})
	return nil
}

func (s *server) Reset(slots []string, m *Model) error {
	if s.front != nil {
		s.front.Close()
		s.env.Close()
		_ = os.RemoveAll(s.dir)
	}
	var err error
	if s.dir, err = os.MkdirTemp("", s.id); err != nil {
		return err
	}
	s.addr, s.slots = "", slots
	s.env = New(nil, nil)
	s.env.Grow()
	s.env.Load(m)
	return s.start()
}

func (s *server) Restart() error {
	s.front.Close()
	if err := s.env.Storage.Stop(); err != nil {
		return err
	}
	s.env.Wire(Open(s.env.Path), nil, nil)
	return s.start()
}

func (s *server) close() {
	if s.front != nil {
		s.front.Close()
		s.env.Close()
		_ = os.RemoveAll(s.dir)
		s.front = nil
	}
}

func (s *server) Check(m *Model) string                 { return s.env.Check(m, migNames...) }
func (s *server) HasObject(id string, o *Object) string { return s.env.HasObject(id, o) }
func (s *server) HasBucket(b *msg.Bucket) string        { return s.env.HasBucket(b) }
func (s *server) Status() bool                          { return pool.HashSlot.IsNormal() }
func (s *server) Addr() string                          { return s.addr }
func (s *server) ID() string                            { return s.id }
func (s *server) Exec(d *entity.RaftData) Err {
	return ClassOf(direct(s.env, &command{log: encLog(1, d)}, false))
}

// ---------------------------------------------------------------- the child's side

// KVArgs and KVRes carry one etcd operation.
type KVArgs struct {
	Op       string
	Key, End []byte
	Val      []byte
}

type KVRes struct{ Keys, Vals [][]byte }

// remoteKV is the child's etcd.
type remoteKV struct {
	clientv3.KV
	c *rpc.Client
}

func (r remoteKV) call(op clientv3.Op, name string) (*KVRes, error) {
	var res KVRes
	err := r.c.Call("Parent.KV", KVArgs{name, op.KeyBytes(), op.RangeBytes(), op.ValueBytes()}, &res)
	return &res, err
}

func (r remoteKV) Get(_ context.Context, key string, opts ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	x, err := r.call(clientv3.OpGet(key, opts...), "get")
	if err != nil {
		return nil, err
	}
	g := &clientv3.GetResponse{Count: int64(len(x.Keys))}
	for i := range x.Keys {
		g.Kvs = append(g.Kvs, &mvccpb.KeyValue{Key: x.Keys[i], Value: x.Vals[i]})
	}
	return g, nil
}

func (r remoteKV) Put(_ context.Context, key, val string, opts ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	_, err := r.call(clientv3.OpPut(key, val, opts...), "put")
	return &clientv3.PutResponse{}, err
}

func (r remoteKV) Delete(_ context.Context, key string, opts ...clientv3.OpOption) (*clientv3.DeleteResponse, error) {
	_, err := r.call(clientv3.OpDelete(key, opts...), "delete")
	return &clientv3.DeleteResponse{}, err
}

// Child is what the parent calls.
type Child struct{ s *server }

type ResetArgs struct {
	Slots []string
	M     *Model
	Dir   string
	Env   string
	Addr  string
}

type ChildInfo struct{ Addr, Dir, Env string }

func (c *Child) Reset(a ResetArgs, r *ChildInfo) error {
	err := c.s.Reset(a.Slots, a.M)
	*r = ChildInfo{c.s.addr, c.s.dir, c.s.env.Path}
	return err
}

// Resume takes over the files of a child that has ended.
func (c *Child) Resume(a ResetArgs, _ *int) error {
	c.s.addr, c.s.dir, c.s.slots = a.Addr, a.Dir, a.Slots
	c.s.env = &Env{Path: a.Env}
	c.s.env.Wire(Open(a.Env), nil, nil)
	return c.s.start()
}

type ObjArgs struct {
	ID string
	O  *Object
	B  *msg.Bucket
	M  *Model
	D  []byte
}

func (c *Child) Check(a ObjArgs, r *string) error     { *r = c.s.Check(a.M); return nil }
func (c *Child) HasObject(a ObjArgs, r *string) error { *r = c.s.HasObject(a.ID, a.O); return nil }
func (c *Child) HasBucket(a ObjArgs, r *string) error { *r = c.s.HasBucket(a.B); return nil }
func (c *Child) Status(_ int, r *bool) error          { *r = c.s.Status(); return nil }
func (c *Child) Exec(a ObjArgs, r *Err) error {
	var d entity.RaftData
	if err := util.DecodeMsgp(&d, a.D); err != nil {
		return err
	}
	*r = c.s.Exec(&d)
	return nil
}

// child runs in the child process until its parent is gone.
func child(addr string) {
	up, err := rpc.Dial("tcp", addr)
	if err != nil {
		os.Exit(3)
	}
	s := &server{id: "s2", kv: remoteKV{c: up}}
	s.item = func() error {
		var act string
		if err := up.Call("Parent.Item", 0, &act); err != nil {
			return err
		}
		switch act {
		case "":
			return nil
		case "die":
			os.Exit(7)
		}
		return errors.New(act)
	}
	down := rpc.NewServer()
	if err = down.Register(&Child{s}); err != nil {
		panic(err)
	}
	conn, err := net.Dial("tcp", os.Getenv("VERIF_CHILD_CTL"))
	if err != nil {
		os.Exit(3)
	}
	down.ServeConn(conn)
	os.Exit(0)
}

// ---------------------------------------------------------------- the parent's side

// Parent is what the child calls.
type Parent struct {
	st   *fakeetcd.Store
	mu   sync.Mutex
	item func() string
}

func (p *Parent) KV(a KVArgs, r *KVRes) error {
	ctx := context.Background()
	switch a.Op {
	case "put":
		_, err := p.st.Put(ctx, string(a.Key), string(a.Val))
		return err
	case "delete":
		_, err := p.st.Delete(ctx, string(a.Key))
		return err
	}
	var opts []clientv3.OpOption
	if len(a.End) > 0 {
		opts = append(opts, clientv3.WithRange(string(a.End)))
	}
	g, err := p.st.Get(ctx, string(a.Key), opts...)
	if err != nil {
		return err
	}
	for _, kv := range g.Kvs {
		r.Keys, r.Vals = append(r.Keys, kv.Key), append(r.Vals, kv.Value)
	}
	return nil
}

func (p *Parent) Item(_ int, act *string) error {
	p.mu.Lock()
	f := p.item
	p.mu.Unlock()
	if f != nil {
		*act = f()
	}
	return nil
}

// remote is the host in the child process.
type remote struct {
	w    *world
	cmd  *osexec.Cmd
	c    *rpc.Client
	info ChildInfo
	args ResetArgs
	dead chan struct{}
}

func (r *remote) spawn() error {
	exe, err := os.Executable()
	if err != nil {
		return err
	}
	r.cmd = osexec.Command(exe, "-test.run=^$")
	r.cmd.Env = append(os.Environ(), "VERIF_CHILD="+r.w.rpcAddr, "VERIF_CHILD_CTL="+r.w.ctl.Addr().String())
	if err := r.cmd.Start(); err != nil {
		return err
	}
	conn, err := r.w.ctl.Accept()
	if err != nil {
		return err
	}
	r.c = rpc.NewClient(conn)
	r.dead = make(chan struct{})
	cmd, dead := r.cmd, r.dead
	go func() { _ = cmd.Wait(); close(dead) }()
	return nil
}

func (r *remote) kill() {
	if r.cmd != nil {
		_ = r.cmd.Process.Kill()
		<-r.dead
		_ = r.c.Close()
		r.cmd = nil
	}
}

func (r *remote) Reset(slots []string, m *Model) error {
	if r.cmd == nil {
		if err := r.spawn(); err != nil {
			return err
		}
	}
	r.args = ResetArgs{Slots: slots, M: m}
	return r.c.Call("Child.Reset", r.args, &r.info)
}

func (r *remote) Restart() error {
	r.kill()
	if err := r.spawn(); err != nil {
		return err
	}
	var x int
	return r.c.Call("Child.Resume", ResetArgs{Slots: r.args.Slots, Dir: r.info.Dir, Env: r.info.Env, Addr: r.info.Addr}, &x)
}

func (r *remote) str(method string, a ObjArgs) string {
	var s string
	if err := r.c.Call("Child."+method, a, &s); err != nil {
		return "no answer: " + err.Error()
	}
	return s
}
func (r *remote) Check(m *Model) string { return r.str("Check", ObjArgs{M: m}) }
func (r *remote) HasObject(id string, o *Object) string {
	return r.str("HasObject", ObjArgs{ID: id, O: o})
}
func (r *remote) HasBucket(b *msg.Bucket) string { return r.str("HasBucket", ObjArgs{B: b}) }
func (r *remote) Addr() string                   { return r.info.Addr }
func (r *remote) ID() string                     { return "s2" }
func (r *remote) Status() bool {
	var ok bool
	return r.c.Call("Child.Status", 0, &ok) == nil && ok
}
func (r *remote) Exec(d *entity.RaftData) Err {
	bt, err := util.EncodeMsgp(d)
	if err != nil {
		panic(err)
	}
	var e Err
	if err := r.c.Call("Child.Exec", ObjArgs{D: bt}, &e); err != nil {
		return Other
	}
	return e
}

// world is both servers and their etcd.
type world struct {
	st      *fakeetcd.Store
	parent  *Parent
	ctl     net.Listener
	rpcAddr string
	s1      *server
	s2      *remote
}

func newWorld() *world {
	w := &world{st: fakeetcd.New()}
	w.parent = &Parent{st: w.st}
	srv := rpc.NewServer()
	if err := srv.Register(w.parent); err != nil {
		panic(err)
	}
	l, _ := Listen()
	w.rpcAddr = l.Addr().String()
	go srv.Accept(l)
	w.ctl, _ = Listen()
	w.s1 = &server{id: "s1", kv: w.st}
	w.s1.item = func() error {
		var act string
		_ = w.parent.Item(0, &act)
		switch act {
		case "":
			return nil
		case "die":
			// its network goes away, in the middle of the transfer
			f := w.s1.front
			go f.Close()
			time.Sleep(20 * time.Millisecond)
			return errors.New("dying")
		}
		return errors.New(act)
	}
	w.s2 = &remote{w: w}
	return w
}

func (w *world) close() {
	w.s2.kill()
	w.s1.close()
	_ = w.ctl.Close()
}

// slotsOf reads what etcd says about the owner of slots.
func (w *world) slotsOf(sid string) (hashslot.EdgeList, string) {
	g, err := w.st.Get(context.Background(), cst.EtcdPrefix.FmtHashSlot(Group, sid))
	if err != nil || len(g.Kvs) == 0 {
		return nil, "no slot information"
	}
	var info hashslot.SlotInfo
	if err := util.DecodeMsgp(&info, g.Kvs[0].Value); err != nil {
		return nil, err.Error()
	}
	if info.ServerID != sid || info.GroupID != sid {
		return nil, fmt.Sprintf("slot information of %s names server %q of group %q", sid, info.ServerID, info.GroupID)
	}
	e, err := hashslot.WrapSlotsToEdges(info.Slots, "")
	if err != nil {
		return nil, err.Error()
	}
	return e, ""
}

// allSlots is the number of slots; hashslot.MaxSlot is the last one.
const allSlots = hashslot.MaxSlot + 1

// owner is the model of slot ownership.
type owner [allSlots]string

func (o *owner) slots(sid string) []string {
	var res []string
	for i := 0; i < len(o); {
		if o[i] != sid {
			i++
			continue
		}
		j := i
		for j < len(o) && o[j] == sid {
			j++
		}
		res = append(res, fmt.Sprintf("%d-%d", i, j))
		i = j
	}
	return res
}

func (o *owner) compare(w *world, sids ...string) string {
	for _, sid := range sids {
		e, d := w.slotsOf(sid)
		if d != "" {
			return d
		}
		var got [allSlots]bool
		for _, x := range e {
			for i := x.Start; i < x.End && i < allSlots; i++ {
				got[i] = true
			}
		}
		for i := range got {
			if got[i] != (o[i] == sid) {
				return fmt.Sprintf("slot %d: %s has it: %v, its owner is %q", i, sid, got[i], o[i])
			}
		}
	}
	return ""
}

func slotOf(name string) int { return hashslot.CalcBytesSlot([]byte(name)) }

// part is the records in slots of sid.
func part(m *Model, o *owner, sid string) *Model {
	c := m.Clone()
	for id := range c.Objs {
		if o[slotOf(id)] != sid {
			delete(c.Objs, id)
		}
	}
	for n := range c.Buckets {
		if o[slotOf(n)] != sid {
			delete(c.Buckets, n)
		}
	}
	return c
}

var migNames = func() []string {
	r := append(append([]string{}, idPool...), bktPool...)
	for i := 0; i < 12; i++ {
		r = append(r, fmt.Sprintf("b/m%d", i))
	}
	sort.Strings(r)
	return r
}()

// genContent draws a model.
func genContent(t *rapid.T) *Model {
	m := NewModel()
	uid := 0
	for _, id := range migNames {
		if rapid.IntRange(0, 2).Draw(t, "has") == 0 {
			continue
		}
		d := genMeta(t)
		d.CreateTime = rapid.Int64Range(1, 99).Draw(t, "ct")
		d.UpdateTime = d.CreateTime + rapid.Int64Range(0, 9).Draw(t, "ut")
		m.AddMeta(id, d)
		// a third of the objects has more than ten versions
		max := 3
		if rapid.IntRange(0, 4).Draw(t, "many") == 0 {
			max = 13
		}
		n := rapid.IntRange(0, max).Draw(t, "vers")
		for i := 0; i < n; i++ {
			v := genVersion(t)
			uid++
			v.UniqueId, v.Ts = fmt.Sprintf("u%d", uid), rapid.Int64Range(1, 99).Draw(t, "ts")
			m.AddVer(id, v)
		}
		// the newest stays: its number is all that keeps the sequence
		o := m.Objs[id]
		for _, s := range o.Numbers() {
			if s < o.Seq && rapid.IntRange(0, 3).Draw(t, "rm") == 0 {
				m.RemoveVer(id, s)
			}
		}
	}
	for _, n := range bktPool {
		if rapid.Bool().Draw(t, "bucket") {
			b := genBucket(t)
			b.Name = n
			b.CreateTime = rapid.Int64Range(1, 99).Draw(t, "bct")
			b.UpdateTime = b.CreateTime + rapid.Int64Range(0, 9).Draw(t, "but")
			m.CreateBucket(b)
		}
	}
	return m
}

// genCut draws a slot number, mostly one at the edge of a name's slot.
func genCut(t *rapid.T) int {
	switch rapid.IntRange(0, 5).Draw(t, "cut") {
	case 0:
		return rapid.IntRange(0, allSlots).Draw(t, "slot")
	case 1:
		return rapid.SampledFrom([]int{0, allSlots, allSlots / 2}).Draw(t, "edge")
	}
	return slotOf(rapid.SampledFrom(migNames).Draw(t, "name")) + rapid.IntRange(0, 1).Draw(t, "after")
}

// answersFor checks that h answers for name exactly if it should.
func answersFor(h host, name string, should bool) string {
	cc := Dial(h.Addr())
	defer cc.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	_, err := pb.NewMetadataApiClient(cc).GetMetadata(ctx, &pb.MetaReq{Id: name})
	if refused := status.Code(err) == codes.Aborted; refused == should {
		return fmt.Sprintf("%s owns the slot of %q: %v, its answer: %v", h.ID(), name, should, err)
	}
	return ""
}

// writesRefused tries every kind of write at a server in migration; "" if all are refused.
func writesRefused(h host, owned string) string {
	cc := Dial(h.Addr())
	defer cc.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	api := pb.NewMetadataApiClient(cc)
	v := &msg.Version{Hash: "intruder", Size: 1, ShardSize: 1, DataShards: 1, StoreStrategy: 1, Locate: []string{"x"}}
	m := &msg.Metadata{Name: "intruder", Bucket: "b"}
	_, e1 := api.SaveMetadata(ctx, &pb.Metadata{Id: owned + "-new", Msgpack: enc(m)})
	_, e2 := api.SaveVersion(ctx, &pb.Metadata{Id: owned, Msgpack: enc(v)})
	_, e3 := api.UpdateVersion(ctx, &pb.Metadata{Id: owned, Version: 1, Msgpack: enc(v)})
	_, e4 := api.RemoveVersion(ctx, &pb.MetaReq{Id: owned, Version: 1})
	_, e5 := api.SaveBucket(ctx, &pb.Metadata{Id: "intruder", Msgpack: enc(&msg.Bucket{Name: "intruder"})})
	for i, err := range []error{e1, e2, e3, e4, e5} {
		if err == nil {
			return fmt.Sprintf("gRPC write %d at %s was accepted in a migration", i+1, h.ID())
		}
	}
	for _, r := range [][3]string{
		{"POST", "/metadata/" + url.PathEscape(owned+"-new"), `{"name":"x","bucket":"b"}`},
		{"PUT", "/metadata/" + url.PathEscape(owned), `{"name":"x","bucket":"b"}`},
		{"DELETE", "/metadata/" + url.PathEscape(owned), ""},
		{"POST", "/metadata_version/" + url.PathEscape(owned), `{"storeStrategy":1,"dataShards":1,"shardSize":1,"size":1,"hash":"h","locate":["a"]}`},
		{"DELETE", "/metadata_version/" + url.PathEscape(owned) + "?version=1", ""},
		{"POST", "/bucket", `{"name":"intruder"}`},
		{"DELETE", "/bucket/b", ""},
	} {
		req, err := http.NewRequestWithContext(ctx, r[0], "http://"+h.Addr()+r[1], strings.NewReader(r[2]))
		if err != nil {
			return err.Error()
		}
		req.Header.Set("Content-Type", "application/json")
		resp, err := http.DefaultClient.Do(req)
		if err != nil {
			return fmt.Sprintf("%s %s at %s: %v", r[0], r[1], h.ID(), err)
		}
		Discard(resp)
		if resp.StatusCode/100 == 2 {
			return fmt.Sprintf("%s answered %s %s with %d in a migration", h.ID(), r[0], r[1], resp.StatusCode)
		}
	}
	return ""
}

// normal waits until a server has left the migration.
func normal(h host) bool {
	for i := 0; i < 3000; i++ {
		if h.Status() {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

// migrate asks src to hand over slots; nil if it says that it did.
func migrate(src, dst host, slots []string) error {
	cc := Dial(src.Addr())
	defer cc.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	hst, port, _ := net.SplitHostPort(dst.Addr())
	r, err := pb.NewHashSlotClient(cc).StartMigration(ctx, &pb.MigrationReq{Slots: slots, TargetLocation: &pb.LocationInfo{Host: hst, Port: port}})
	if err != nil {
		return err
	}
	if !r.Success {
		return errors.New(r.Message)
	}
	return nil
}

// TestVerif_M07_migration migrates slots between two servers, to and fro, with faults.
func TestVerif_M07_migration(t *testing.T) {
	w := newWorld()
	defer w.close()
	vh.Check(t, vh.N(60, 1500), "a migration succeeded that moved at least one object with versions", func(t *rapid.T, c *vh.Case) {
		all := genContent(t)
		var own owner
		// cut the slots between the two and a third one, which does not take part
		cuts := []int{0, allSlots}
		for i := rapid.SampledFrom([]int{3, 2, 1, 4, 0, 8}).Draw(t, "cuts"); i > 0; i-- {
			cuts = append(cuts, genCut(t))
		}
		sort.Ints(cuts)
		ids := []string{"s1", "s2", "other", "a1", "a2", "t1", "s3", "s10"}
		others := []string{"other"}
		if rapid.IntRange(0, 2).Draw(t, "others") == 0 {
			others = ids[2:]
			c.Class("eight groups")
		}
		for i := 0; i+1 < len(cuts); i++ {
			sid := rapid.SampledFrom([]string{"s1", "s2", "s1", "s2", "other"}).Draw(t, "owner")
			if sid == "other" {
				sid = rapid.SampledFrom(others).Draw(t, "other")
			}
			for j := cuts[i]; j < cuts[i+1]; j++ {
				own[j] = sid
			}
		}
		// what the others own is nowhere
		for _, id := range vh.Keys(all.Objs) {
			if sid := own[slotOf(id)]; sid != "s1" && sid != "s2" {
				delete(all.Objs, id)
			}
		}
		for _, n := range vh.Keys(all.Buckets) {
			if sid := own[slotOf(n)]; sid != "s1" && sid != "s2" {
				delete(all.Buckets, n)
			}
		}
		w.parent.mu.Lock()
		w.parent.item = nil
		w.parent.mu.Unlock()
		w.st.Before = nil
		for _, sid := range ids {
			PutSlots(w.st, sid, sid, own.slots(sid))
		}
		must := func(err error) {
			if err != nil {
				t.Fatalf("harness: %v", err)
			}
		}
		must(w.s1.Reset(own.slots("s1"), part(all, &own, "s1")))
		must(w.s2.Reset(own.slots("s2"), part(all, &own, "s2")))
		hosts := []host{w.s1, w.s2}
		// leftovers of failed migrations may lie at a server until it owns the slots
		dirty := map[string]map[int]bool{"s1": {}, "s2": {}}
		verify := func(what string) {
			t.Helper()
			if d := own.compare(w, ids...); d != "" {
				t.Fatalf("%s: %s", what, d)
			}
			for _, h := range hosts {
				p := part(all, &own, h.ID())
				if len(dirty[h.ID()]) == 0 {
					if d := h.Check(p); d != "" {
						t.Fatalf("%s: %s: %s", what, h.ID(), d)
					}
				}
				for _, id := range p.IDs("") {
					if d := h.HasObject(id, p.Objs[id]); d != "" {
						t.Fatalf("%s: %s: %s", what, h.ID(), d)
					}
				}
				for _, n := range p.BucketNames("") {
					if d := h.HasBucket(p.Buckets[n]); d != "" {
						t.Fatalf("%s: %s: %s", what, h.ID(), d)
					}
				}
				for _, n := range migNames {
					if d := answersFor(h, n, own[slotOf(n)] == h.ID()); d != "" {
						t.Fatalf("%s: %s", what, d)
					}
				}
			}
		}
		verify("before")
		uid := 0
		moves := rapid.IntRange(1, 4).Draw(t, "moves")
		// the last migration if it failed
		var failed []string
		var failedSrc, failedDst host
		var failedNext owner
		for k := 0; k < moves; k++ {
			src, dst := hosts[0], hosts[1]
			if rapid.Bool().Draw(t, "back") {
				src, dst = dst, src
			}
			again := failed != nil && rapid.IntRange(0, 2).Draw(t, "again") > 0
			if again {
				src, dst = failedSrc, failedDst
			}
			// changes at the source, also of what a failed migration has left at the other one
			for j := rapid.SampledFrom([]int{2, 1, 4, 0, 3}).Draw(t, "changes"); j > 0; j-- {
				p := part(all, &own, src.ID())
				if again {
					// of what is to be moved again
					for _, id := range vh.Keys(p.Objs) {
						if failedNext[slotOf(id)] == own[slotOf(id)] {
							delete(p.Objs, id)
						}
					}
					for _, n := range vh.Keys(p.Buckets) {
						if failedNext[slotOf(n)] == own[slotOf(n)] {
							delete(p.Buckets, n)
						}
					}
				}
				d := genChange(t, p, all, &uid)
				if d == nil {
					break
				}
				if got := src.Exec(d); got != OK {
					t.Fatalf("changing %q at %s: %s", d.Name, src.ID(), got)
				}
			}
			var mine []int
			for i, sid := range own {
				if sid == src.ID() {
					mine = append(mine, i)
				}
			}
			// what to move: one or two pieces of what it owns, sometimes something it does not own
			var next = own
			var slots []string
			valid := true
			pieces := rapid.SampledFrom([]int{2, 1, 3}).Draw(t, "pieces")
			if again {
				next, slots, pieces = failedNext, failed, 0
				c.Class("tried again")
			}
			for j := pieces; j > 0; j-- {
				a, b := genCut(t), genCut(t)
				if a > b {
					a, b = b, a
				}
				// shrink it to a run of own slots, mostly
				if len(mine) > 0 && rapid.IntRange(0, 9).Draw(t, "valid") != 9 {
					i := sort.SearchInts(mine, a)
					if i == len(mine) {
						i = 0
					}
					a = mine[i]
					// often everything up to where another one's slots begin
					switch rapid.IntRange(0, 3).Draw(t, "all of them") {
					case 0:
						b = len(own)
					case 1:
						b = len(own)
						for a > 0 && own[a-1] == src.ID() && next[a-1] == src.ID() {
							a--
						}
					}
					e := a
					for e < len(own) && e < b && own[e] == src.ID() && next[e] == src.ID() {
						e++
					}
					if e == a {
						for e < len(own) && own[e] == src.ID() && next[e] == src.ID() {
							e++
						}
					}
					b = e
				}
				if a >= b {
					continue
				}
				for x := a; x < b; x++ {
					if next[x] != src.ID() {
						valid = false
					}
					next[x] = dst.ID()
				}
				slots = append(slots, fmt.Sprintf("%d-%d", a, b))
			}
			if len(slots) == 0 {
				continue
			}
			if !valid {
				if err := migrate(src, dst, slots); err == nil {
					t.Fatalf("%s gave away %v, of which it owns only a part", src.ID(), slots)
				}
				c.Class("not owned")
				// the other one may have been prepared
				if !normal(src) || !src.Status() {
					t.Fatalf("%s stays in migration after refusing", src.ID())
				}
				if !dst.Status() {
					must(dst.Restart())
				}
				verify("after a refused migration")
				continue
			}
			moving := 0
			movedVers := 0
			anyName := ""
			for id, o := range all.Objs {
				if own[slotOf(id)] == src.ID() && next[slotOf(id)] == dst.ID() {
					moving += 1 + len(o.Vers)
					movedVers += len(o.Vers)
				}
				if own[slotOf(id)] == src.ID() && (anyName == "" || id < anyName) {
					anyName = id
				}
			}
			for n := range all.Buckets {
				if own[slotOf(n)] == src.ID() && next[slotOf(n)] == dst.ID() {
					moving++
				}
			}
			for x := 0; x+1 < len(own); x++ {
				if own[x] == src.ID() && next[x] == dst.ID() && own[x+1] == dst.ID() {
					c.Class("up to slots of the target")
				}
				if own[x+1] == src.ID() && next[x+1] == dst.ID() && own[x] == dst.ID() {
					c.Class("from slots of the target on")
				}
			}
			// the fault
			fault := rapid.SampledFrom([]string{"none", "none", "none", "refuse", "die", "put", "die at put", "source dies", "no target"}).Draw(t, "fault")
			at := 0
			switch fault {
			case "refuse", "die", "source dies":
				if moving == 0 || fault == "source dies" && src != host(w.s2) {
					fault = "none"
				} else {
					at = rapid.IntRange(1, moving).Draw(t, "at")
				}
			case "put", "die at put":
				at = rapid.IntRange(1, 2).Draw(t, "put")
				if fault == "die at put" && (at == 2 || dst != host(w.s2)) {
					fault, at = "put", 2
				}
			case "no target":
				if dst != host(w.s2) {
					fault = "none"
				}
			}
			var mu sync.Mutex
			items, puts := 0, 0
			probe := rapid.IntRange(1, 6).Draw(t, "probe")
			probed := ""
			w.parent.mu.Lock()
			w.parent.item = func() string {
				mu.Lock()
				items++
				n := items
				mu.Unlock()
				if n == probe && anyName != "" {
					d := writesRefused(src, anyName)
					if d == "" {
						d = writesRefused(dst, anyName)
					}
					mu.Lock()
					probed = d
					mu.Unlock()
				}
				if n != at {
					return ""
				}
				switch fault {
				case "refuse":
					return "refused by the check"
				case "die":
					return "die"
				case "source dies":
					_ = w.s2.cmd.Process.Kill()
				}
				return ""
			}
			w.parent.mu.Unlock()
			w.st.Before = func(op, key string) error {
				if op != "put" {
					return nil
				}
				mu.Lock()
				puts++
				n := puts
				mu.Unlock()
				// the slots change hands: still nothing is written at the source
				if n == 1 && anyName != "" {
					if d := writesRefused(src, anyName); d != "" {
						mu.Lock()
						probed = "while the slots change hands: " + d
						mu.Unlock()
					}
				}
				if n == at && fault == "put" {
					return errors.New("etcdserver: request timed out")
				}
				if n == at && fault == "die at put" {
					_ = w.s2.cmd.Process.Kill()
					<-w.s2.dead
				}
				return nil
			}
			if fault == "no target" {
				w.s2.kill()
			}
			err := migrate(src, dst, slots)
			w.st.Before = nil
			w.parent.mu.Lock()
			w.parent.item = nil
			w.parent.mu.Unlock()
			c.Class("fault: " + fault)
			c.Logf("%s -> %s %v: %d records, fault %s at %d: %v", src.ID(), dst.ID(), slots, moving, fault, at, err)
			mu.Lock()
			d := probed
			mu.Unlock()
			if d != "" {
				t.Fatalf("%s", d)
			}
			what := fmt.Sprintf("migration %d of %v from %s to %s (fault %s at %d)", k, slots, src.ID(), dst.ID(), fault, at)
			failed = nil
			if fault == "none" {
				if err != nil {
					t.Fatalf("%s failed: %v", what, err)
				}
				own = next
				for i := range own {
					if own[i] == dst.ID() {
						delete(dirty[dst.ID()], i)
					}
				}
				if movedVers > 0 {
					c.NonTrivial()
				}
				if !normal(src) || !normal(dst) {
					t.Fatalf("%s: a server stays in migration", what)
				}
				verify("after " + what)
				continue
			}
			if err == nil {
				t.Fatalf("%s: reported success", what)
			}
			switch fault {
			case "die":
				must(dst.Restart())
			case "source dies", "die at put", "no target":
				must(w.s2.Restart())
			}
			if !normal(src) || !normal(dst) {
				t.Fatalf("%s: a server stays in migration", what)
			}
			failed, failedSrc, failedDst, failedNext = slots, src, dst, next
			for _, n := range migNames {
				if i := slotOf(n); next[i] != own[i] {
					dirty[dst.ID()][i] = true
				}
			}
			verify("after " + what)
		}
	})
}

// genChange draws an effective change of a record of p and applies it to all.
func genChange(t *rapid.T, p, all *Model, uid *int) *entity.RaftData {
	ids, bs := p.IDs(""), p.BucketNames("")
	if len(ids)+len(bs) == 0 {
		return nil
	}
	kind := 4
	id := ""
	if len(ids) > 0 {
		id = rapid.SampledFrom(ids).Draw(t, "cid")
		kind = rapid.SampledFrom([]int{0, 4, 1, 2, 3, 4}).Draw(t, "change")
	}
	d := &entity.RaftData{Name: id}
	switch kind {
	case 0:
		d.Type, d.Dest = entity.LogRemove, entity.DestMetadata
		all.RemoveMeta(id)
	case 1:
		d.Type, d.Dest, d.Version = entity.LogInsert, entity.DestVersion, genVersion(t)
		*uid++
		d.Version.UniqueId, d.Version.Ts = fmt.Sprintf("c%d", *uid), 200
		x := CopyVersion(d.Version)
		all.AddVer(id, x)
	case 2:
		o := all.Objs[id]
		nums := o.Numbers()
		if len(nums) < 2 {
			return genChange(t, p, all, uid)
		}
		d.Type, d.Dest, d.Sequence = entity.LogRemove, entity.DestVersion, nums[rapid.IntRange(0, len(nums)-2).Draw(t, "rmv")]
		all.RemoveVer(id, d.Sequence)
		p.RemoveVer(id, d.Sequence)
	case 3:
		d.Type, d.Dest, d.Metadata = entity.LogUpdate, entity.DestMetadata, genMeta(t)
		d.Metadata.UpdateTime = all.Objs[id].Meta.UpdateTime + 5
		all.UpdateMeta(id, d.Metadata)
	case 4:
		if len(bs) == 0 {
			return genChange(t, p, all, uid)
		}
		d.Name = rapid.SampledFrom(bs).Draw(t, "cb")
		d.Type, d.Dest = entity.LogRemove, entity.DestBucket
		all.RemoveBucket(d.Name)
	}
	return d
}

// TestVerif_M07_sequence moves an object whose newest version was removed.
func TestVerif_M07_sequence(t *testing.T) {
	w := newWorld()
	defer w.close()
	vh.Check(t, vh.N(3, 20), "the object has lost its newest version", func(t *rapid.T, c *vh.Case) {
		const id = "b/m1"
		m := NewModel()
		m.AddMeta(id, &msg.Metadata{Name: "m1", Bucket: "b", CreateTime: 1, UpdateTime: 1})
		n := rapid.IntRange(2, 5).Draw(t, "versions")
		for i := 0; i < n; i++ {
			v := genVersion(t)
			v.UniqueId, v.Ts = fmt.Sprintf("u%d", i), 5
			m.AddVer(id, v)
		}
		m.RemoveVer(id, uint64(n))
		var own owner
		for i := range own {
			own[i] = "s1"
		}
		w.st.Before = nil
		w.parent.mu.Lock()
		w.parent.item = nil
		w.parent.mu.Unlock()
		for _, sid := range []string{"s1", "s2"} {
			PutSlots(w.st, sid, sid, own.slots(sid))
		}
		if err := w.s1.Reset(own.slots("s1"), m); err != nil {
			t.Fatalf("harness: %v", err)
		}
		if err := w.s2.Reset(nil, NewModel()); err != nil {
			t.Fatalf("harness: %v", err)
		}
		if err := migrate(w.s1, w.s2, []string{"0-16384"}); err != nil {
			t.Fatalf("migration failed: %v", err)
		}
		c.NonTrivial()
		v := genVersion(t)
		v.UniqueId, v.Ts = "new", 200
		if got := w.s2.Exec(&entity.RaftData{Type: entity.LogInsert, Dest: entity.DestVersion, Name: id, Version: v}); got != OK {
			t.Fatalf("adding a version: %s", got)
		}
		reused := m.Clone()
		reused.Objs[id].Seq = uint64(n - 1)
		m.AddVer(id, CopyVersion(v))
		reused.AddVer(id, CopyVersion(v))
		if d := w.s2.HasObject(id, m.Objs[id]); d != "" {
			if w.s2.HasObject(id, reused.Objs[id]) != "" {
				t.Fatalf("after the migration and another version: %s", d)
			}
			vh.Finding(t, "M07", "sequence", "the number of a removed newest version is given out again after the object was migrated")
		}
	})
}

// TestVerif_M07_inflight begins a migration while clients' writes are being executed.
func TestVerif_M07_inflight(t *testing.T) {
	w := newWorld()
	defer w.close()
	defer writing.Store(nil)
	vh.Check(t, vh.N(25, 400), "an acknowledged write was under way when the migration of its object or bucket began", func(t *rapid.T, c *vh.Case) {
		must := func(err error) {
			if err != nil {
				t.Fatalf("harness: %v", err)
			}
		}
		m := genContent(t)
		if m.Objs["b/m1"] == nil {
			m.AddMeta("b/m1", &msg.Metadata{Name: "m1", Bucket: "b", CreateTime: 1, UpdateTime: 1})
		}
		if len(m.Objs["b/m1"].Vers) < 2 {
			for i := 0; i < 2; i++ {
				v := genVersion(t)
				v.UniqueId, v.Ts = fmt.Sprintf("m1-%d", i), 5
				m.AddVer("b/m1", v)
			}
		}
		w.st.Before = nil
		w.parent.mu.Lock()
		w.parent.item = nil
		w.parent.mu.Unlock()
		writing.Store(nil)
		PutSlots(w.st, "s1", "s1", []string{"0-16384"})
		PutSlots(w.st, "s2", "s2", nil)
		PutSlots(w.st, "other", "other", nil)
		must(w.s1.Reset([]string{"0-16384"}, m))
		must(w.s2.Reset(nil, NewModel()))
		cut := rapid.SampledFrom([]int{allSlots, 12288, 8192}).Draw(t, "slots")
		type op struct {
			what string
			id   string
			num  int32
			err  error
		}
		var ids []string
		for _, id := range m.IDs("") {
			if len(m.Objs[id].Vers) > 1 {
				ids = append(ids, id)
			}
		}
		var ops []*op
		used := map[string]bool{}
		for i := rapid.IntRange(1, 4).Draw(t, "writes"); i > 0; i-- {
			o := &op{what: rapid.SampledFrom([]string{"new version", "change version", "remove version", "new object", "new bucket", "change over HTTP"}).Draw(t, "write"), id: rapid.SampledFrom(ids).Draw(t, "object")}
			switch o.what {
			case "new object", "new bucket":
				o.id = fmt.Sprint("inflight", i)
			default:
				if used[o.id] {
					continue
				}
				nums := m.Objs[o.id].Numbers()
				o.num = int32(nums[rapid.IntRange(0, len(nums)-2).Draw(t, "number")])
			}
			used[o.id] = true
			ops = append(ops, o)
		}
		entered, release, ended := make(chan struct{}, 99), make(chan struct{}), make(chan *op, 99)
		hook := func() {
			entered <- struct{}{}
			<-release
		}
		writing.Store(&hook)
		cc := Dial(w.s1.Addr())
		defer cc.Close()
		api := pb.NewMetadataApiClient(cc)
		ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
		defer cancel()
		v := &msg.Version{Hash: "inflight", Size: 1, ShardSize: 1, DataShards: 1, StoreStrategy: 1, Locate: []string{"inflight"}}
		var wg sync.WaitGroup
		for _, o := range ops {
			wg.Add(1)
			go func(o *op) {
				defer wg.Done()
				defer func() { ended <- o }()
				switch o.what {
				case "new version":
					var r *pb.Int32
					if r, o.err = api.SaveVersion(ctx, &pb.Metadata{Id: o.id, Msgpack: enc(v)}); o.err == nil {
						o.num = r.Data
					}
				case "change version":
					_, o.err = api.UpdateVersion(ctx, &pb.Metadata{Id: o.id, Version: o.num, Msgpack: enc(v)})
				case "remove version":
					_, o.err = api.RemoveVersion(ctx, &pb.MetaReq{Id: o.id, Version: o.num})
				case "new object":
					_, o.err = api.SaveMetadata(ctx, &pb.Metadata{Id: o.id, Msgpack: enc(&msg.Metadata{Name: o.id, Bucket: "b"})})
				case "new bucket":
					_, o.err = api.SaveBucket(ctx, &pb.Metadata{Id: o.id, Msgpack: enc(&msg.Bucket{Name: o.id, VersionRemains: 7})})
				case "change over HTTP":
					req, err := http.NewRequestWithContext(ctx, "PUT", "http://"+w.s1.Addr()+"/metadata/"+url.PathEscape(o.id), strings.NewReader(`{"name":"changed","bucket":"b"}`))
					if err != nil {
						o.err = err
						return
					}
					req.Header.Set("Content-Type", "application/json")
					resp, err := http.DefaultClient.Do(req)
					if err != nil {
						o.err = err
						return
					}
					Discard(resp)
					if resp.StatusCode/100 != 2 {
						o.err = errors.New(resp.Status)
					}
				}
			}(o)
		}
		for range ops {
			select {
			case <-entered:
			case o := <-ended:
				close(release)
				t.Fatalf("harness: %s of %q (%d) does not begin: %v", o.what, o.id, o.num, o.err)
			}
		}
		var err error
		done := make(chan struct{})
		go func() {
			defer close(done)
			err = migrate(w.s1, w.s2, []string{fmt.Sprint("0-", cut)})
		}()
		// it may wait for the writes, or refuse
		select {
		case <-done:
			c.Class("ended before the writes")
		case <-time.After(time.Duration(rapid.IntRange(60, 120).Draw(t, "ms")) * time.Millisecond):
			c.Class("waited for the writes")
		}
		close(release)
		<-done
		wg.Wait()
		writing.Store(nil)
		if !normal(w.s1) {
			t.Fatalf("the source stays in migration")
		}
		if err == nil && !normal(w.s2) {
			t.Fatalf("the target stays in migration")
		}
		c.Logf("0-%d: %v", cut, err)
		for _, o := range ops {
			c.Logf("%s %q %d: %v", o.what, o.id, o.num, o.err)
			if o.err != nil {
				continue
			}
			moved := slotOf(o.id) < cut && err == nil
			var h host = w.s1
			if moved {
				h = w.s2
				c.NonTrivial()
				c.Class(o.what)
			}
			c2 := Dial(h.Addr())
			at := pb.NewMetadataApiClient(c2)
			bad := ""
			switch o.what {
			case "new version", "change version":
				var got msg.Version
				if r, err := at.GetVersion(ctx, &pb.MetaReq{Id: o.id, Version: o.num}); err != nil || util.DecodeMsgp(&got, r.Data) != nil || len(got.Locate) != 1 || got.Locate[0] != "inflight" {
					bad = fmt.Sprintf("%+v %v", got, err)
				}
			case "remove version":
				if r, err := at.GetVersion(ctx, &pb.MetaReq{Id: o.id, Version: o.num}); status.Code(err) != codes.NotFound {
					bad = fmt.Sprintf("%v %v", r, err)
				}
			case "new object", "change over HTTP":
				var got msg.Metadata
				if r, err := at.GetMetadata(ctx, &pb.MetaReq{Id: o.id}); err != nil || util.DecodeMsgp(&got, r.Data) != nil || o.what == "change over HTTP" && got.Name != "changed" {
					bad = fmt.Sprintf("%+v %v", got, err)
				}
			case "new bucket":
				var got msg.Bucket
				if r, err := at.GetBucket(ctx, &pb.MetaReq{Id: o.id}); err != nil || util.DecodeMsgp(&got, r.Data) != nil || got.VersionRemains != 7 {
					bad = fmt.Sprintf("%+v %v", got, err)
				}
			}
			c2.Close()
			if bad != "" {
				t.Fatalf("%s of %q (%d) was acknowledged during the migration of 0-%d (%v), but its owner %s answers %s", o.what, o.id, o.num, cut, err, h.ID(), bad)
			}
		}
	})
}
