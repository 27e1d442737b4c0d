package verifenv

import (
	"adminserver/internal/entity"
	"common/cst"
	"common/hashslot"
	"common/proto/pb"
	"common/system"
	"common/util"
	"context"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
	"verifharness/vh"
)

// rpcServer stands in for the gRPC side of a metadata or object server.
type rpcServer struct {
	pb.UnimplementedHashSlotServer
	pb.UnimplementedRaftCmdServer
	pb.UnimplementedMetadataApiServer
	pb.UnimplementedObjectMigrationServer
	pb.UnimplementedConfigServiceServer
	addr   string
	srv    *grpc.Server
	mu     sync.Mutex
	calls  []string
	answer string // "", "refused" or "fails"
	peers  []string
	config []byte
}

func newRPC() *rpcServer {
	r := &rpcServer{srv: grpc.NewServer()}
	pb.RegisterHashSlotServer(r.srv, r)
	pb.RegisterRaftCmdServer(r.srv, r)
	pb.RegisterMetadataApiServer(r.srv, r)
	pb.RegisterObjectMigrationServer(r.srv, r)
	pb.RegisterConfigServiceServer(r.srv, r)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	r.addr = l.Addr().String()
	go func() { _ = r.srv.Serve(l) }()
	return r
}

func (r *rpcServer) called(format string, a ...any) (*pb.Response, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.calls = append(r.calls, fmt.Sprintf(format, a...))
	switch r.answer {
	case "refused":
		return &pb.Response{Success: false, Message: "because of that"}, nil
	case "fails":
		return nil, status.Error(codes.Aborted, "because of that")
	}
	return &pb.Response{Success: true, Message: "ok"}, nil
}

func (r *rpcServer) take() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	c := r.calls
	r.calls = nil
	return c
}

func (r *rpcServer) set(answer string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.answer = answer
}

func (r *rpcServer) StartMigration(_ context.Context, q *pb.MigrationReq) (*pb.Response, error) {
	return r.called("migrate %q to %s", q.Slots, net.JoinHostPort(q.GetTargetLocation().GetHost(), q.GetTargetLocation().GetPort()))
}

func (r *rpcServer) JoinLeader(_ context.Context, q *pb.JoinLeaderReq) (*pb.Response, error) {
	return r.called("follow %s", q.MasterId)
}

func (r *rpcServer) LeaveCluster(context.Context, *pb.EmptyReq) (*pb.Response, error) {
	return r.called("leave group")
}

func (r *rpcServer) JoinCommand(context.Context, *pb.EmptyReq) (*pb.Response, error) {
	return r.called("join")
}

func (r *rpcServer) LeaveCommand(context.Context, *pb.EmptyReq) (*pb.Response, error) {
	return r.called("leave")
}

func (r *rpcServer) GetPeers(context.Context, *pb.Empty) (*pb.Strings, error) {
	if _, err := r.called("peers"); err != nil {
		return nil, err
	}
	return &pb.Strings{Data: r.peers}, nil
}

func (r *rpcServer) GetConfig(context.Context, *pb.EmptyReq) (*pb.ConfigResp, error) {
	if _, err := r.called("config"); err != nil {
		return nil, err
	}
	return &pb.ConfigResp{YamlEncode: r.config}, nil
}

// the stand-ins outlive the cases, so that the admin server's connections are used again
var standIns []*rpcServer

const nStandIns = 6

func rpcServers() []*rpcServer {
	for len(standIns) < nStandIns {
		standIns = append(standIns, newRPC())
	}
	return standIns
}

// member is a registered server.
type member struct {
	service, id, role string
	rpc               *rpcServer
}

func (m *member) String() string { return m.service + " " + m.id + m.role }

func genInfo(t *rapid.T) *system.Info {
	i := system.ZeroInfo()
	n := func(what string) uint64 { return rapid.Uint64Range(0, 1<<40).Draw(t, what) }
	i.CpuStatus.UsedPercent = float64(rapid.IntRange(0, 100).Draw(t, "cpu"))
	i.CpuStatus.LogicalCount = int(n("cpus") % 64)
	i.MemStatus.All, i.MemStatus.Used, i.MemStatus.Free = n("memory"), n("used"), n("free")
	i.DiskInfo.Total, i.DiskInfo.Files = 5*1024, n("files")
	i.DiskInfo.FSType = rapid.SampledFrom([]string{"ext4", "é", ""}).Draw(t, "type")
	i.IoStatus.ReadCount, i.IoStatus.WriteCount = n("reads"), n("writes")
	return i
}

func commands(t *rapid.T, c *vh.Case, racing bool) {
	a := New()
	defer a.Close()
	rpcs := rpcServers()
	for _, r := range rpcs {
		r.set("")
		r.take()
	}
	apis := []*API{NewAPI()}
	defer apis[0].Close()
	ms := map[string]*member{} // by service and id
	key := func(service, id string) string { return service + "/" + id }
	ids := []string{"s1", "s2", "s1-10", "x-1270018080"}
	infos := map[string]*system.Info{}
	slots := map[string]*hashslot.SlotInfo{}
	free := append([]*rpcServer(nil), rpcs...)
	register := func(service, id, role string) {
		if m := ms[key(service, id)]; m != nil {
			a.Unregister(m.service, m.id, m.role)
			free = append(free, m.rpc)
		}
		m := &member{service, id, role, free[0]}
		free = free[1:]
		m.rpc.mu.Lock()
		m.rpc.peers, m.rpc.config = nil, []byte("port: "+id+" of "+service+"\n")
		m.rpc.mu.Unlock()
		ms[key(service, id)] = m
		a.Register(service, id, role, m.rpc.addr)
		c.Logf("%s at %s", m, m.rpc.addr)
	}
	of := func(service string) (r []*member) {
		for _, k := range vh.Keys(ms) {
			if ms[k].service == service {
				r = append(r, ms[k])
			}
		}
		return
	}
	apiID := rapid.SampledFrom([]string{"a1", "s1"}).Draw(t, "api server")
	a.Register(APIName, apiID, "", apis[0].Addr())
	apis[0].Handle = func(w http.ResponseWriter, k *Call) {
		if k.Path == "/config" {
			_, _ = w.Write([]byte("port: api\n"))
		}
	}
	someID := func(label string) string { return rapid.SampledFrom(append(ids, "none")).Draw(t, label) }
	h := map[string]string{"Authorization": "Basic QQ=="}
	outcome := func(m *member, r Answer, what string) {
		// of a command to m; nobody else may have heard of it
		for _, x := range rpcs {
			got := x.take()
			if m != nil && x == m.rpc {
				if len(got) != 1 || got[0] != what {
					t.Fatalf("%s was told %q, not %q", m, got, what)
				}
				continue
			}
			if len(got) > 0 {
				t.Fatalf("%q meant for %v was told to another server", got, m)
			}
		}
		if r.Err != nil {
			t.Fatalf("%s: %v", what, r.Err)
		}
		good := m != nil && m.rpc.answer == ""
		if good != (r.Code/100 == 2) {
			t.Fatalf("%s of %v (answered %v) reported %d %s", what, m, good, r.Code, r.Body)
		}
		if m != nil && m.rpc.answer == "refused" && !strings.Contains(string(r.Body), "because of that") {
			t.Fatalf("%s of %v was refused, reported is %d %s", what, m, r.Code, r.Body)
		}
		if m == nil && r.Code != 400 {
			t.Fatalf("%s of a server that is unknown reported %d %s", what, r.Code, r.Body)
		}
	}
	post := func(path string, v any) Answer {
		bt, err := json.Marshal(v)
		must(err)
		return a.Do(nil, "POST", path, nil, map[string]string{"Authorization": h["Authorization"], "Content-Type": "application/json"}, bt)
	}
	steps := rapid.IntRange(2, 20).Draw(t, "steps")
	for i := 0; i < steps; i++ {
		op := rapid.SampledFrom([]string{"register", "migrate", "follow", "leave group", "join", "leave", "config", "peers", "slots", "stat", "gone", "fails", "publish"}).Draw(t, "op")
		if i < 2 {
			op = "register"
		} else if i == 2 && rapid.Bool().Draw(t, "some fail") {
			op = "fails"
		}
		a.Settle()
		c.Class(op)
		switch op {
		case "register":
			// anew, or at another address, or with another role
			s := rapid.SampledFrom([]string{MetaName, DataName}).Draw(t, "service")
			id := rapid.SampledFrom(ids).Draw(t, "id")
			if len(free) == 0 && ms[key(s, id)] == nil {
				continue
			}
			if len(free) == 0 {
				m := ms[key(s, id)]
				a.Unregister(s, id, m.role)
				free = append(free, m.rpc)
				delete(ms, key(s, id))
			}
			role := ""
			if s == MetaName {
				role = rapid.SampledFrom([]string{"_master", "_slave"}).Draw(t, "role")
			}
			register(s, id, role)
		case "gone":
			for _, m := range of(rapid.SampledFrom([]string{MetaName, DataName}).Draw(t, "service")) {
				a.Unregister(m.service, m.id, m.role)
				free = append(free, m.rpc)
				delete(ms, key(m.service, m.id))
				c.Logf("%s is gone", m)
				break
			}
		case "fails":
			for _, x := range rpcs {
				x.set(rapid.SampledFrom([]string{"refused", "", "fails"}).Draw(t, "answers"))
			}
			c.NonTrivial()
		case "publish":
			s := rapid.SampledFrom([]string{MetaName, DataName, APIName}).Draw(t, "service")
			id := rapid.SampledFrom(append(ids, apiID)).Draw(t, "id")
			info := genInfo(t)
			infos[key(s, id)] = info
			bt, err := util.EncodeMsgp(info)
			must(err)
			_, err = a.Etcd.Put(context.Background(), cst.EtcdPrefix.FmtSystemInfo(Group, s, id), string(bt))
			must(err)
			g := rapid.SampledFrom([]string{"g1", "s1", "s2"}).Draw(t, "group")
			si := &hashslot.SlotInfo{GroupID: g, ServerID: id, Slots: []string{}}
			for k := rapid.IntRange(0, 3).Draw(t, "slots"); k > 0; k-- {
				si.Slots = append(si.Slots, fmt.Sprintf("%d-%d", k*10, k*10+rapid.IntRange(1, 9).Draw(t, "length")))
			}
			slots[g] = si
			bt, err = util.EncodeMsgp(si)
			must(err)
			_, err = a.Etcd.Put(context.Background(), cst.EtcdPrefix.FmtHashSlot(Group, g), string(bt))
			must(err)
		case "migrate":
			src, dst := someID("from"), someID("to")
			ss := rapid.SliceOfN(rapid.SampledFrom([]string{"0-10", "5-6", "100-16384"}), 1, 3).Draw(t, "slots")
			r := post("/api/metadata/migration", map[string]any{"srcServerId": src, "destServerId": dst, "slots": ss})
			m, to := ms[key(MetaName, src)], ms[key(MetaName, dst)]
			what := ""
			if to == nil {
				m = nil
			} else {
				what = fmt.Sprintf("migrate %q to %s", ss, to.rpc.addr)
			}
			outcome(m, r, what)
		case "follow":
			s, l := someID("server"), someID("leader")
			r := post("/api/metadata/join_leader", map[string]any{"serverId": s, "masterId": l})
			outcome(ms[key(MetaName, s)], r, "follow "+l)
		case "leave group":
			s := someID("server")
			outcome(ms[key(MetaName, s)], post("/api/metadata/leave_cluster", map[string]any{"serverId": s}), op)
		case "join", "leave":
			s := someID("server")
			outcome(ms[key(DataName, s)], post("/api/objects/"+op+"/"+s, nil), op)
		case "config":
			s := someID("server")
			service := rapid.SampledFrom([]string{"metadata", "objects", "server"}).Draw(t, "asked of")
			m := ms[key(map[string]string{"metadata": MetaName, "objects": DataName}[service], s)]
			var r Answer
			if service == "server" {
				if rapid.IntRange(0, 3).Draw(t, "of the api server") == 0 {
					s = apiID
				}
				var known []*member
				for _, n := range []string{MetaName, DataName} {
					if x := ms[key(n, s)]; x != nil {
						known = append(known, x)
					}
				}
				if len(known) > 1 || len(known) == 1 && s == apiID {
					continue // which one is not said
				}
				if len(known) == 1 {
					m = known[0]
				}
				r = a.Do(nil, "GET", "/api/server/config", url.Values{"serverId": {s}}, h, nil)
				if s == apiID {
					if r.Code != 200 || string(r.Body) != "port: api\n" {
						t.Fatalf("configuration of the API server %s: %d %q", s, r.Code, r.Body)
					}
					continue
				}
			} else {
				r = a.Do(nil, "GET", "/api/"+service+"/config/"+s, nil, h, nil)
			}
			if m != nil && m.rpc.answer == "refused" {
				m.rpc.set("")
			}
			outcome(m, r, "config")
			if r.Code/100 == 2 && string(r.Body) != string(m.rpc.config) {
				t.Fatalf("configuration of %s is shown as %q, it is %q", m, r.Body, m.rpc.config)
			}
		case "peers":
			s := someID("server")
			m := ms[key(MetaName, s)]
			var group []string
			if m != nil {
				for _, x := range of(MetaName) {
					if x != m && rapid.Bool().Draw(t, "in the group") {
						group = append(group, x.id)
					}
				}
				if rapid.IntRange(0, 5).Draw(t, "one is away") == 5 {
					group = append(group, "away")
				}
				m.rpc.mu.Lock()
				m.rpc.peers = group
				m.rpc.mu.Unlock()
				if m.rpc.answer == "refused" {
					m.rpc.set("")
				}
			}
			r := a.Do(nil, "GET", "/api/metadata/peers", url.Values{"serverId": {s}}, h, nil)
			outcome(m, r, "peers")
			if r.Code/100 != 2 {
				continue
			}
			var got []*entity.ServerInfo
			if err := json.Unmarshal(r.Body, &got); err != nil {
				t.Fatalf("peers: %v: %s", err, r.Body)
			}
			var have, want []string
			for _, g := range got {
				have = append(have, g.ServerID+" "+g.HttpAddr)
			}
			for _, id := range append(group, s) {
				addr := ""
				if x := ms[key(MetaName, id)]; x != nil {
					addr = x.rpc.addr
				}
				want = append(want, id+" "+addr)
			}
			sort.Strings(have)
			sort.Strings(want)
			if !reflect.DeepEqual(have, want) {
				t.Fatalf("group of %s is shown as %q, it is %q", s, have, want)
			}
		case "slots":
			r := a.Do(nil, "GET", "/api/metadata/slots_detail", nil, h, nil)
			var got map[string]*hashslot.SlotInfo
			if r.Code != 200 || json.Unmarshal(r.Body, &got) != nil || len(got) != len(slots) {
				t.Fatalf("slots: %d %s, published by %d", r.Code, r.Body, len(slots))
			}
			for g, w := range slots {
				if x := got[g]; x == nil || x.GroupID != w.GroupID || x.ServerID != w.ServerID || strings.Join(x.Slots, " ") != strings.Join(w.Slots, " ") || x.Slots == nil {
					t.Fatalf("slots of %s: %s, it has %q", g, r.Body, w.Slots)
				}
			}
		case "stat":
			c.NonTrivial()
			r := a.Do(nil, "GET", "/api/server/stat", nil, h, nil)
			var got map[string]map[string]*entity.ServerInfo
			if r.Code != 200 || json.Unmarshal(r.Body, &got) != nil {
				t.Fatalf("stat: %d %s", r.Code, r.Body)
			}
			want := map[string]map[string]string{"metaServer": {}, "dataServer": {}, "apiServer": {}}
			line := func(addr string, master bool, info *system.Info) string {
				if info == nil {
					info = system.ZeroInfo()
				}
				bt, err := json.Marshal(info)
				must(err)
				return fmt.Sprintf("%s, master: %v, %s", addr, master, bt)
			}
			for _, m := range ms {
				n := "metaServer"
				if m.service == DataName {
					n = "dataServer"
				}
				want[n][m.id] = line(m.rpc.addr, m.role == "_master", infos[key(m.service, m.id)])
			}
			want["apiServer"][apiID] = line(apis[0].Addr(), false, infos[key(APIName, apiID)])
			have := map[string]map[string]string{}
			for n, l := range got {
				have[n] = map[string]string{}
				for id, s := range l {
					if s.ServerID != id {
						t.Fatalf("%s is shown as %s", s.ServerID, id)
					}
					have[n][id] = line(s.HttpAddr, s.IsMaster, s.SysInfo)
				}
			}
			if !reflect.DeepEqual(have, want) {
				t.Fatalf("servers are shown as\n%v, they are\n%v", have, want)
			}
		}
		if racing && i == steps-1 {
			// all at once
			var wg sync.WaitGroup
			for _, x := range rpcs {
				x.set("")
				x.take()
			}
			all := append(of(MetaName), of(DataName)...)
			res := make([]Answer, 2*len(all))
			a.Settle()
			for k := range res {
				k := k
				m := all[k/2]
				wg.Add(1)
				go func() {
					defer wg.Done()
					path := "/api/metadata/config/"
					if m.service == DataName {
						path = "/api/objects/config/"
					}
					res[k] = a.Do(nil, "GET", path+m.id, nil, h, nil)
				}()
			}
			wg.Wait()
			for k, r := range res {
				if r.Code != 200 || string(r.Body) != string(all[k/2].rpc.config) {
					t.Fatalf("configuration of %s is shown as %d %q", all[k/2], r.Code, r.Body)
				}
			}
		}
	}
	if len(ms) > 1 {
		c.NonTrivial()
	}
}

const commandsRule = "metadata and object servers (the same ids in both) come, go, move to other addresses and change their role; commands (migration, joining and leaving groups and clusters) and views (configuration, group members, slots, state of all servers) name known and unknown servers, which obey, refuse or fail; non-trivial: more than one server, or one refuses or fails, or the state is viewed"

// What the panel is told to do reaches the server it names, and what it shows of servers is right.
func TestVerif_D05_commands(t *testing.T) {
	vh.Check(t, vh.N(1000, 20000), commandsRule, func(t *rapid.T, c *vh.Case) { commands(t, c, false) })
}

func TestVerif_D05_commands_race(t *testing.T) {
	vh.Check(t, vh.N(200, 4000), commandsRule+"; in the end the configurations of all are viewed at once", func(t *rapid.T, c *vh.Case) {
		standIns = nil // new addresses
		commands(t, c, true)
		for _, r := range standIns {
			r.srv.Stop()
		}
		standIns = nil
	})
}
