package verifenv

import (
	"apiserver/internal/entity"
	"apiserver/internal/usecase"
	"apiserver/internal/usecase/grpcapi"
	"apiserver/internal/usecase/pool"
	"apiserver/internal/usecase/repo"
	"apiserver/internal/usecase/service"
	"common/cst"
	"common/hashslot"
	"common/proto/msg"
	"common/proto/pb"
	"common/response"
	"common/util"
	"context"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"net"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"verifharness/vh"

	"github.com/gin-gonic/gin"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
)

// metaReq is a request that reached a metadata server.
type metaReq struct {
	server, op, id string
	version        int32
	extra          bool
	body           any
}

// metaServ answers as told.
type metaServ struct {
	pb.UnimplementedMetadataApiServer
	id   string
	addr string
	all  *metaServs
}

type metaServs struct {
	servers []*metaServ
	mu      sync.Mutex
	reqs    []metaReq
	peers   map[string][]string // nil: fails
	code    codes.Code
	message string
	data    any
	number  int32
}

func newMetaServs(ids ...string) *metaServs {
	ms := &metaServs{}
	for _, id := range ids {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		m := &metaServ{id: id, addr: l.Addr().String(), all: ms}
		g := grpc.NewServer()
		pb.RegisterMetadataApiServer(g, m)
		eng := gin.New()
		eng.UseRawPath = true
		eng.UnescapePathValues = true
		eng.PUT("/bucket/:name", m.putBucket)
		eng.DELETE("/bucket/:name", m.deleteBucket)
		srv := &http.Server{Handler: util.H2CHandler(eng, g)}
		go func() { _ = srv.Serve(l) }()
		ms.servers = append(ms.servers, m)
	}
	return ms
}

func (m *metaServ) got(op, id string, version int32, extra bool, body any) error {
	m.all.mu.Lock()
	defer m.all.mu.Unlock()
	m.all.reqs = append(m.all.reqs, metaReq{m.id, op, id, version, extra, body})
	if m.all.code != codes.OK {
		return status.Error(m.all.code, m.all.message)
	}
	return nil
}

var httpOf = map[codes.Code]int{codes.OK: 200, codes.NotFound: 404, codes.InvalidArgument: 400, codes.Aborted: 409, codes.Internal: 500, codes.Unavailable: 503}

func (m *metaServ) answerHTTP(c *gin.Context, err error, ok int) {
	if err == nil {
		c.Status(ok)
		return
	}
	c.JSON(httpOf[status.Code(err)], &response.FailureResp{Message: "refused"})
}

func (m *metaServ) putBucket(c *gin.Context) {
	var b msg.Bucket
	if err := json.NewDecoder(c.Request.Body).Decode(&b); err != nil {
		c.Status(400)
		return
	}
	m.answerHTTP(c, m.got("UpdateBucket", c.Param("name"), 0, false, b), 200)
}

func (m *metaServ) deleteBucket(c *gin.Context) {
	m.answerHTTP(c, m.got("DeleteBucket", c.Param("name"), 0, false, nil), 204)
}

func (m *metaServ) packed() (*pb.Msgpack, error) {
	m.all.mu.Lock()
	defer m.all.mu.Unlock()
	bt, err := util.EncodeMsgp(m.all.data.(interface {
		MarshalMsg([]byte) ([]byte, error)
		UnmarshalMsg([]byte) ([]byte, error)
		Msgsize() int
	}))
	return &pb.Msgpack{Data: bt}, err
}

func (m *metaServ) GetBucket(_ context.Context, r *pb.MetaReq) (*pb.Msgpack, error) {
	if err := m.got("GetBucket", r.Id, r.Version, r.WithExtra, nil); err != nil {
		return nil, err
	}
	return m.packed()
}

func (m *metaServ) GetMetadata(_ context.Context, r *pb.MetaReq) (*pb.Msgpack, error) {
	if err := m.got("GetMetadata", r.Id, r.Version, r.WithExtra, nil); err != nil {
		return nil, err
	}
	return m.packed()
}

func (m *metaServ) GetVersion(_ context.Context, r *pb.MetaReq) (*pb.Msgpack, error) {
	if err := m.got("GetVersion", r.Id, r.Version, r.WithExtra, nil); err != nil {
		return nil, err
	}
	return m.packed()
}

func (m *metaServ) GetPeers(context.Context, *pb.Empty) (*pb.Strings, error) {
	m.all.mu.Lock()
	defer m.all.mu.Unlock()
	if p, ok := m.all.peers[m.id]; ok {
		return &pb.Strings{Data: p}, nil
	}
	return nil, status.Error(codes.Unavailable, "no raft")
}

func (m *metaServ) SaveMetadata(_ context.Context, r *pb.Metadata) (*pb.Empty, error) {
	var b msg.Metadata
	if err := util.DecodeMsgp(&b, r.Msgpack); err != nil {
		return nil, err
	}
	return new(pb.Empty), m.got("SaveMetadata", r.Id, r.Version, false, b)
}

func (m *metaServ) SaveBucket(_ context.Context, r *pb.Metadata) (*pb.Empty, error) {
	var b msg.Bucket
	if err := util.DecodeMsgp(&b, r.Msgpack); err != nil {
		return nil, err
	}
	return new(pb.Empty), m.got("SaveBucket", r.Id, r.Version, false, b)
}

func (m *metaServ) SaveVersion(_ context.Context, r *pb.Metadata) (*pb.Int32, error) {
	var b msg.Version
	if err := util.DecodeMsgp(&b, r.Msgpack); err != nil {
		return nil, err
	}
	if err := m.got("SaveVersion", r.Id, 0, false, b); err != nil {
		return nil, err
	}
	m.all.mu.Lock()
	defer m.all.mu.Unlock()
	return &pb.Int32{Data: m.all.number}, nil
}

func (m *metaServ) UpdateVersion(_ context.Context, r *pb.Metadata) (*pb.Empty, error) {
	var b msg.Version
	if err := util.DecodeMsgp(&b, r.Msgpack); err != nil {
		return nil, err
	}
	return new(pb.Empty), m.got("UpdateVersion", r.Id, r.Version, false, b)
}

func (m *metaServ) RemoveVersion(_ context.Context, r *pb.MetaReq) (*pb.Empty, error) {
	return new(pb.Empty), m.got("RemoveVersion", r.Id, r.Version, false, nil)
}

var (
	metaOnce sync.Once
	metaAll  *metaServs
)

// masters are the first four, any server may be a follower
var metaIDs = []string{"m1", "m2", "m10", "m2b", "f1", "f2"}

// metaUp registers the metadata servers (anew after a reset).
func metaUp(a *API) *metaServs {
	metaOnce.Do(func() { metaAll = newMetaServs(metaIDs...) })
	ctx := context.Background()
	prefix := cst.EtcdPrefix.FmtRegistry(Group, "metaserver") + "/"
	for _, m := range metaAll.servers {
		role := "_master"
		if strings.HasPrefix(m.id, "f") {
			role = "_slave"
		}
		_, err := a.Etcd.Put(ctx, prefix+m.id+role, m.addr)
		must(err)
	}
	if !Eventually(20*time.Second, func() bool { return len(a.disc.GetServices("metaserver")) == len(metaIDs) }) {
		panic("metadata servers are not discovered")
	}
	return metaAll
}

type slotRange struct {
	from, to int
	owner    string
}

func (r slotRange) String() string { return fmt.Sprintf("%d-%d:%s", r.from, r.to, r.owner) }

// drawSlots assigns ranges to owners, all of them or not.
func drawSlots(t *rapid.T, owners []string) (rs []slotRange) {
	cuts := map[int]bool{0: true, 16384: true}
	for i, n := 0, rapid.IntRange(0, 9).Draw(t, "cuts"); i < n; i++ {
		cuts[rapid.IntRange(1, 16383).Draw(t, "cut")] = true
	}
	var at []int
	for k := range cuts {
		at = append(at, k)
	}
	sort.Ints(at)
	gaps := rapid.IntRange(0, 3).Draw(t, "gaps") == 0
	for i := 0; i+1 < len(at); i++ {
		if gaps && rapid.IntRange(0, 2).Draw(t, "owned") == 2 {
			continue
		}
		rs = append(rs, slotRange{at[i], at[i+1], rapid.SampledFrom(owners).Draw(t, "owner")})
	}
	return
}

// publish the assignment.
func publish(a *API, rs []slotRange) {
	ctx := context.Background()
	_, _ = a.Etcd.Delete(ctx, cst.EtcdPrefix.FmtHashSlot(Group, "m"))
	by := map[string][]string{}
	for _, r := range rs {
		by[r.owner] = append(by[r.owner], fmt.Sprint(r.from, "-", r.to))
	}
	for _, id := range append([]string{"ghost"}, metaIDs...) {
		key := cst.EtcdPrefix.FmtHashSlot(Group, "group of "+id)
		if len(by[id]) == 0 {
			_, _ = a.Etcd.Delete(ctx, key)
			continue
		}
		bt, err := util.EncodeMsgp(&hashslot.SlotInfo{GroupID: "group of " + id, ServerID: id, Slots: by[id]})
		must(err)
		_, err = a.Etcd.Put(ctx, key, string(bt))
		must(err)
	}
	// another group's are of no interest
	bt, err := util.EncodeMsgp(&hashslot.SlotInfo{GroupID: "x", ServerID: "f2", Slots: []string{"0-16384"}})
	must(err)
	_, err = a.Etcd.Put(ctx, cst.EtcdPrefix.FmtHashSlot(Group+"2", "x"), string(bt))
	must(err)
}

func ownerOf(key string, rs []slotRange) string {
	slot := int(crc32.ChecksumIEEE([]byte(key)) % 16384)
	for _, r := range rs {
		if slot >= r.from && slot < r.to {
			return r.owner
		}
	}
	return ""
}

func drawName(t *rapid.T, label string) string {
	return rapid.OneOf(
		rapid.StringMatching(`[a-z]{1,8}`),
		rapid.StringMatching(`[a-zA-Z0-9 ?%#/&+=;:@,.~_\\"'<>\[\]{}|^-]{1,12}`),
		rapid.StringMatching(`(%2[0fF]|%|/|\?|#|\.|日本|é|\x00|\n| ){1,4}`),
		rapid.StringN(1, 8, -1),
	).Draw(t, label)
}

func drawVersion(t *rapid.T) *entity.Version {
	v := &entity.Version{
		Compress:      rapid.Bool().Draw(t, "compress"),
		Hash:          rapid.StringMatching(`[0-9a-f]{1,8}`).Draw(t, "hash"),
		StoreStrategy: entity.ObjectStrategy(rapid.IntRange(0, 3).Draw(t, "strategy")),
		Sequence:      rapid.Int32Range(1, 1<<31-1).Draw(t, "sequence"),
		Size:          rapid.Int64Range(0, 1<<50).Draw(t, "size"),
		DataShards:    rapid.IntRange(0, 1<<31-1).Draw(t, "data"),
		ParityShards:  rapid.IntRange(0, 1<<31-1).Draw(t, "parity"),
		ShardSize:     int(rapid.Int64Range(0, 1<<50).Draw(t, "shard")),
	}
	for i, n := 0, rapid.IntRange(0, 5).Draw(t, "locates"); i < n; i++ {
		v.Locate = append(v.Locate, drawName(t, "locate"))
	}
	return v
}

func drawBucket(t *rapid.T, name string) *entity.Bucket {
	b := &entity.Bucket{
		Name:           name,
		Versioning:     rapid.Bool().Draw(t, "versioning"),
		Readonly:       rapid.Bool().Draw(t, "readonly"),
		Compress:       rapid.Bool().Draw(t, "compress"),
		StoreStrategy:  entity.ObjectStrategy(rapid.IntRange(0, 3).Draw(t, "strategy")),
		DataShards:     rapid.IntRange(0, 100).Draw(t, "data"),
		ParityShards:   rapid.IntRange(0, 100).Draw(t, "parity"),
		VersionRemains: rapid.IntRange(0, 1<<31-1).Draw(t, "remains"),
	}
	for i, n := 0, rapid.IntRange(0, 2).Draw(t, "policies"); i < n; i++ {
		b.Policies = append(b.Policies, drawName(t, "policy"))
	}
	return b
}

// asMsg is what a metadata server is told or tells of v.
func asMsg(v any) any {
	bt, err := json.Marshal(v)
	must(err)
	switch v.(type) {
	case *entity.Version:
		var m msg.Version
		must(json.Unmarshal(bt, &m))
		return m
	default:
		var m msg.Bucket
		must(json.Unmarshal(bt, &m))
		return m
	}
}

func jsonOf(v any) string {
	bt, err := json.Marshal(v)
	must(err)
	return strings.ReplaceAll(string(bt), "null", "[]")
}

// TestVerif_A09_route sends all kinds of requests under all kinds of assignments.
func TestVerif_A09_route(t *testing.T) {
	a := api()
	a.Reset()
	ms := metaUp(a)
	vh.Check(t, vh.N(500, 8000), "the slots are divided between at least 2 owners", func(t *rapid.T, c *vh.Case) {
		meta := service.NewMetaService(repo.NewMetadataRepo(), repo.NewVersionRepo())
		buckets := repo.NewBucketRepo()
		owners := []string{"m1", "m2", "m10", "m2b"}
		if rapid.IntRange(0, 5).Draw(t, "with a server that is gone") == 5 {
			owners = append(owners, "ghost")
		}
		rs := drawSlots(t, owners)
		publish(a, rs)
		diff := map[string]bool{}
		for _, r := range rs {
			diff[r.owner] = true
		}
		if len(diff) > 1 {
			c.NonTrivial()
		}
		peers := map[string][]string{}
		for _, m := range owners {
			if rapid.IntRange(0, 2).Draw(t, "raft") == 0 {
				peers[m] = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"f1", "f2", "ghost2"}), 0, 3, rapid.ID[string]).Draw(t, "peers")
			}
		}
		c.Logf("slots %v, peers %v", rs, peers)
		for i, n := 0, rapid.IntRange(1, 10).Draw(t, "requests"); i < n; i++ {
			op := rapid.SampledFrom([]string{"UpdateVersion", "SaveVersion", "GetVersion", "RemoveVersion", "UpdateBucket", "DeleteBucket", "GetBucket", "SaveBucket", "GetMetadata", "SaveMetadata"}).Draw(t, "op")
			bucket, name := drawName(t, "bucket"), drawName(t, "name")
			code := codes.OK
			if rapid.IntRange(0, 4).Draw(t, "fails") == 4 {
				code = rapid.SampledFrom([]codes.Code{codes.NotFound, codes.InvalidArgument, codes.Aborted, codes.Internal, codes.Unavailable}).Draw(t, "code")
			}
			ver, bk := drawVersion(t), drawBucket(t, bucket)
			ver0, bk0 := *ver, *bk
			number := rapid.Int32Range(1, 1<<31-1).Draw(t, "number")
			mode := rapid.Int32Range(0, 3).Draw(t, "version")
			extra := rapid.Bool().Draw(t, "extra")
			md := &msg.Metadata{Name: name, Bucket: bucket, CreateTime: 5, UpdateTime: 7}
			if extra {
				md.Extra = &msg.Extra{Total: 3, FirstVersion: 4, LastVersion: 9}
			}
			key := bucket + "/" + name
			var data any
			var want metaReq
			read := strings.HasPrefix(op, "Get")
			switch op {
			case "GetVersion":
				m := asMsg(ver).(msg.Version)
				data, want = &m, metaReq{op: op, id: key, version: mode}
			case "GetBucket":
				m := asMsg(bk).(msg.Bucket)
				data, want, key = &m, metaReq{op: op, id: bucket}, bucket
			case "GetMetadata":
				data, want = md, metaReq{op: op, id: key, extra: extra}
			case "SaveMetadata":
				want = metaReq{op: op, id: key, body: msg.Metadata{Name: name, Bucket: bucket}}
			case "SaveVersion":
				m := asMsg(ver).(msg.Version)
				m.Sequence = 0
				want = metaReq{op: op, id: key, body: m}
			case "UpdateVersion":
				want = metaReq{op: op, id: key, version: ver.Sequence, body: asMsg(ver)}
			case "RemoveVersion":
				want = metaReq{op: op, id: key, version: ver.Sequence}
			case "SaveBucket", "UpdateBucket":
				want, key = metaReq{op: op, id: bucket, body: asMsg(bk)}, bucket
			case "DeleteBucket":
				want, key = metaReq{op: op, id: bucket}, bucket
			}
			ms.mu.Lock()
			ms.reqs, ms.peers, ms.code, ms.message, ms.data, ms.number = nil, peers, code, "refused", data, number
			if op == "SaveMetadata" && code == codes.InvalidArgument {
				ms.message = "data exists"
			}
			ms.mu.Unlock()
			owner := ownerOf(key, rs)
			c.Logf("%s of %q (%q), owner %q, answered with %v", op, key, ver, owner, code)
			var err error
			var got any
			wantGot := any(nil)
			switch op {
			case "GetVersion":
				wantGot = &ver0
				got, err = meta.GetVersion(name, bucket, mode)
			case "GetBucket":
				wantGot = &bk0
				got, err = buckets.Get(bucket)
			case "GetMetadata":
				w := &entity.Metadata{Name: name, Bucket: bucket, CreateTime: 5, UpdateTime: 7}
				if extra {
					w.Extra = entity.Extra{Total: 3, FirstVersion: 4, LastVersion: 9}
				}
				wantGot = w
				got, err = meta.GetMetadata(name, bucket, int32(entity.VerModeNot), extra)
			case "SaveMetadata":
				_, err = meta.SaveMetadata(&entity.Metadata{Name: name, Bucket: bucket})
			case "SaveVersion":
				wantGot = number
				got, err = meta.AddVersion(name, bucket, ver)
			case "UpdateVersion":
				err = meta.UpdateVersion(name, bucket, ver)
			case "RemoveVersion":
				err = meta.RemoveVersion(name, bucket, ver.Sequence)
			case "SaveBucket":
				err = buckets.Create(bk)
			case "UpdateBucket":
				err = buckets.Update(bk)
			case "DeleteBucket":
				err = buckets.Delete(bucket)
			}
			ms.mu.Lock()
			reqs := append([]metaReq(nil), ms.reqs...)
			ms.mu.Unlock()
			if owner == "" || owner == "ghost" {
				c.Class("no owner")
				if err == nil || len(reqs) > 0 {
					t.Fatalf("%s of %q in slot %d nobody owns: %v, requests %+v", op, key, crc32.ChecksumIEEE([]byte(key))%16384, err, reqs)
				}
				continue
			}
			if len(reqs) != 1 {
				t.Fatalf("%s of %q: %d requests %+v, error %v", op, key, len(reqs), reqs, err)
			}
			r := reqs[0]
			ok := r.server == owner
			if read {
				for _, p := range peers[owner] {
					ok = ok || r.server == p
				}
				c.ClassIf(r.server != owner, "read from a follower")
			}
			if !ok {
				t.Fatalf("%s of %q went to %s, owner is %s (followers %q)", op, key, r.server, owner, peers[owner])
			}
			r.server = ""
			if op == "UpdateVersion" || op == "SaveVersion" || op == "UpdateBucket" || op == "SaveBucket" {
				if jsonOf(r.body) != jsonOf(want.body) {
					t.Fatalf("%s: was sent %s, not %s", op, jsonOf(r.body), jsonOf(want.body))
				}
				r.body, want.body = nil, nil
			}
			if op == "GetVersion" {
				r.extra = false
			}
			if !reflect.DeepEqual(r, want) {
				t.Fatalf("%s: the owner was asked %+v, not %+v", op, r, want)
			}
			if code != codes.OK {
				c.Class("refused")
				if err == nil {
					t.Fatalf("%s was refused with %v, but no error is returned (%v)", op, code, got)
				}
				if code == codes.NotFound && !response.CheckErrStatus(404, err) {
					t.Fatalf("%s of %q is not found: %v", op, key, err)
				}
				if op == "SaveMetadata" && code == codes.InvalidArgument && err != error(usecase.ErrMetadataExists) {
					t.Fatalf("existing metadata is not told from other errors: %v", err)
				}
				continue
			}
			if err != nil {
				t.Fatalf("%s of %q: %v", op, key, err)
			}
			if jsonOf(got) != jsonOf(wantGot) {
				t.Fatalf("%s of %q: %s, not %s", op, key, jsonOf(got), jsonOf(wantGot))
			}
		}
	})
}

// TestVerif_A09_assignment refuses assignments that make no sense.
func TestVerif_A09_assignment(t *testing.T) {
	a := api()
	a.Reset()
	ms := metaUp(a)
	vh.Check(t, vh.N(500, 8000), "all", func(t *rapid.T, c *vh.Case) {
		c.NonTrivial()
		rs := drawSlots(t, metaIDs[:4])
		bad := rapid.SampledFrom([]string{"overlap", "garbage", "none"}).Draw(t, "what")
		c.Class(bad)
		switch bad {
		case "overlap":
			from := rapid.IntRange(0, 16382).Draw(t, "from")
			rs = append([]slotRange{{0, 16384, "m1"}}, slotRange{from, rapid.IntRange(from+1, 16384).Draw(t, "to"), "m2"})
		case "none":
			rs = nil
		}
		publish(a, rs)
		if bad == "garbage" {
			_, err := a.Etcd.Put(context.Background(), cst.EtcdPrefix.FmtHashSlot(Group, "group of f1"), rapid.StringN(0, 5, -1).Draw(t, "garbage"))
			must(err)
		}
		ms.mu.Lock()
		ms.reqs, ms.code = nil, codes.OK
		ms.mu.Unlock()
		bucket := drawName(t, "bucket")
		c.Logf("%s: %v, %q", bad, rs, bucket)
		if err := repo.NewBucketRepo().Delete(bucket); err == nil || len(ms.reqs) > 0 {
			t.Fatalf("bucket %q is deleted on %+v, error %v", bucket, ms.reqs, err)
		}
		publish(a, []slotRange{{0, 16384, "m10"}})
		if err := repo.NewBucketRepo().Delete(bucket); err != nil || len(ms.reqs) != 1 {
			t.Fatalf("bucket %q is deleted on %+v, error %v", bucket, ms.reqs, err)
		}
	})
}

// TestVerif_A09_together_race sends requests to several servers at once, from the first one on.
func TestVerif_A09_together_race(t *testing.T) {
	a := api()
	a.Reset()
	ms := metaUp(a)
	vh.Check(t, vh.N(20, 200), "all", func(t *rapid.T, c *vh.Case) {
		c.NonTrivial()
		ms := ms
		if rapid.Bool().Draw(t, "unknown servers") {
			ms = newMetaServs("x1", "x2", "x3", "x4")
		}
		ms.mu.Lock()
		ms.data, ms.code, ms.reqs = &msg.Bucket{Name: "b"}, codes.OK, nil
		ms.mu.Unlock()
		n := rapid.IntRange(2, 16).Draw(t, "requests")
		c.Logf("%d requests", n)
		errs := make(chan error, n)
		for i := 0; i < n; i++ {
			addr := ms.servers[i%4].addr
			go func() {
				b, err := grpcapi.GetBucket(addr, "b")
				if err == nil && b.Name != "b" {
					err = fmt.Errorf("got %+v", b)
				}
				errs <- err
			}()
		}
		for i := 0; i < n; i++ {
			if err := <-errs; err != nil {
				t.Fatal(err)
			}
		}
	})
	_ = pool.Config
}
