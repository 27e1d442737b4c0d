package verifenv

import (
	"common/cst"
	"common/hashslot"
	"common/proto/msg"
	"common/registry"
	"context"
	"fmt"
	"io"
	"metaserver/config"
	"metaserver/internal/controller/grpc"
	httpctl "metaserver/internal/controller/http"
	"metaserver/internal/usecase"
	"metaserver/internal/usecase/db"
	"metaserver/internal/usecase/pool"
	"metaserver/internal/usecase/raftimpl"
	"metaserver/internal/usecase/service"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sync"
	"time"

	clientv3 "go.etcd.io/etcd/client/v3"
	rpc "google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"

	"github.com/gin-gonic/gin"
)

// Group all servers of the checks belong to.
const Group = "verif"

// ServerConfig reads a configuration the way a server does.
func ServerConfig(dir, sid, port string, slots []string) *config.Config {
	path := filepath.Join(dir, sid+".yaml")
	s := fmt.Sprintf("port: %q\ndata-dir: %q\nregistry:\n  name: metaserver\n  group: %s\n  server-id: %s\n  server-ip: 127.0.0.1\netcd:\n  endpoint: [\"127.0.0.1:1\"]\n  username: u\n  password: p\nhash-slot:\n  slots: [", port, dir, Group, sid)
	for i, x := range slots {
		if i > 0 {
			s += ", "
		}
		s += fmt.Sprintf("%q", x)
	}
	s += "]\n  prepare-timeout: 30s\n"
	if err := os.WriteFile(path, []byte(s), 0o600); err != nil {
		panic(err)
	}
	return config.ReadConfigFrom(path)
}

// Listen takes a free loopback port.
func Listen() (net.Listener, string) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	_, port, _ := net.SplitHostPort(l.Addr().String())
	return l, port
}

// UsePool makes the process-wide pool that of one server.
func UsePool(cfg *config.Config, kv clientv3.KV, cli *clientv3.Client, rw *raftimpl.RaftWrapper) {
	pool.Config = cfg
	pool.HashSlot = db.NewHashSlotDB(cst.EtcdPrefix.FmtHashSlot(cfg.Registry.Group, ""), kv)
	pool.RaftWrapper = rw
	if cli != nil {
		pool.Registry = registry.NewEtcdRegistry(cli, &cfg.Registry)
	}
}

// PutSlots publishes slots of a server.
func PutSlots(kv clientv3.KV, storeID, sid string, slots []string) {
	bt, err := (&hashslot.SlotInfo{GroupID: storeID, ServerID: sid, Slots: slots}).MarshalMsg(nil)
	if err != nil {
		panic(err)
	}
	if _, err = kv.Put(context.Background(), cst.EtcdPrefix.FmtHashSlot(Group, storeID), string(bt)); err != nil {
		panic(err)
	}
}

// conns remembers its connections: those of h2c outlive their server, which those of a process do not.
type conns struct {
	net.Listener
	mu  sync.Mutex
	all []net.Conn
}

func (c *conns) Accept() (net.Conn, error) {
	n, err := c.Listener.Accept()
	if err == nil {
		c.mu.Lock()
		c.all = append(c.all, n)
		c.mu.Unlock()
	}
	return n, err
}

func (c *conns) drop() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, n := range c.all {
		_ = n.Close()
	}
}

// Front is the network side of a server: HTTP and gRPC on one port.
type Front struct {
	Addr  string
	Slots *service.HashSlotService
	rpc   *grpc.Server
	http  *http.Server
	conns *conns
}

// Serve opens the server's own HTTP and gRPC interface on l.
func (e *Env) Serve(l net.Listener, cfg *config.Config, rw *raftimpl.RaftWrapper) *Front {
	return e.ServeWith(l, cfg, rw, e.Meta, e.Buckets)
}

// ServeWith serves other services than the server's own.
func (e *Env) ServeWith(l net.Listener, cfg *config.Config, rw *raftimpl.RaftWrapper, meta usecase.IMetadataService, buckets usecase.BucketService) *Front {
	gin.SetMode(gin.ReleaseMode)
	f := &Front{Addr: l.Addr().String(), conns: &conns{Listener: l}}
	f.Slots = service.NewHashSlotService(pool.HashSlot, meta, buckets, &cfg.HashSlot)
	f.rpc = grpc.NewRpcServer(100, rw, meta, f.Slots, buckets)
	f.http = &http.Server{Handler: httpctl.NewHttpServer(cfg.Port, f.rpc, meta, buckets).Handler}
	go func() { _ = f.http.Serve(f.conns) }()
	return f
}

// Close ends the network side at once.
func (f *Front) Close() {
	_ = f.http.Close()
	f.rpc.Server.Stop()
	f.conns.drop()
}

// Dial connects to a server.
func Dial(addr string) *rpc.ClientConn {
	cc, err := rpc.Dial(addr, rpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		panic(err)
	}
	return cc
}

// Node is one member of a raft cluster.
type Node struct {
	*Env
	ID    string
	Addr  string
	Cfg   config.ClusterConfig
	Front *Front
	conf  *config.Config
}

// Cluster is a raft cluster on loopback.
type Cluster struct {
	Nodes []*Node
	KV    clientv3.KV
	Cli   *clientv3.Client
	marks int
	Lost  string
}

// NewCluster starts n nodes.
func NewCluster(n int, kv clientv3.KV, cli *clientv3.Client) *Cluster {
	c := &Cluster{KV: kv, Cli: cli}
	ls := make([]net.Listener, n)
	var members []string
	for i := 0; i < n; i++ {
		l, port := Listen()
		ls[i] = l
		nd := &Node{ID: fmt.Sprintf("node%d", i), Addr: l.Addr().String()}
		members = append(members, nd.ID+","+nd.Addr)
		dir, err := os.MkdirTemp("", "raft")
		if err != nil {
			panic(err)
		}
		nd.Env = &Env{Dir: dir, Path: filepath.Join(dir, "meta.db")}
		nd.conf = ServerConfig(dir, nd.ID, port, []string{"0-16384"})
		c.Nodes = append(c.Nodes, nd)
	}
	for i, nd := range c.Nodes {
		nd.Cfg = config.ClusterConfig{Enable: true, Bootstrap: i == 0, GroupID: "g", ID: nd.ID, Nodes: members,
			StoreDir: filepath.Join(nd.Dir, "raft"), LogLevel: "OFF",
			ElectionTimeout: 2 * time.Second, HeartbeatTimeout: 2 * time.Second}
		c.start(nd, ls[i])
	}
	return c
}

func (c *Cluster) start(nd *Node, l net.Listener) {
	nd.Wire(Open(nd.Path), nil, nil)
	rw := raftimpl.NewRaft(nd.Addr, nd.Cfg, nd.FSM)
	nd.WireServices(rw)
	nd.Use(c)
	nd.Front = nd.Serve(l, nd.conf, rw)
}

// Use makes the process-wide pool that of the node.
func (nd *Node) Use(c *Cluster) { UsePool(nd.conf, c.KV, c.Cli, nd.Raft) }

// Stop ends a node, keeping its files.
func (c *Cluster) Stop(nd *Node) {
	_ = nd.Raft.Close()
	nd.Front.Close()
	if err := nd.Storage.Stop(); err != nil {
		panic(err)
	}
}

// Start starts a stopped node again.
func (c *Cluster) Start(nd *Node) {
	for i := 0; ; i++ {
		l, err := net.Listen("tcp", nd.Addr)
		if err == nil {
			c.start(nd, l)
			return
		}
		if i > 500 {
			panic(err)
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// Leader waits for a leader; nil if there is none for long.
func (c *Cluster) Leader() *Node {
	for i := 0; i < 6000; i++ {
		for _, nd := range c.Nodes {
			if nd.Raft.IsLeader() {
				return nd
			}
		}
		time.Sleep(10 * time.Millisecond)
	}
	return nil
}

// Settle waits until every node has applied what the leader has; false if that takes too long.
// raft counts a command as applied before the state machine has done it, so a last command is sent
// and looked for.
func (c *Cluster) Settle() bool {
	ld := c.Leader()
	if ld == nil {
		return false
	}
	c.marks++
	mark := fmt.Sprintf("settle-%d", c.marks)
	if err := ld.Meta.AddMetadata(mark, &msg.Metadata{Name: mark, Bucket: "settle"}); err != nil {
		return false
	}
	for i := 0; i < 3000; i++ {
		ok := true
		for _, nd := range c.Nodes {
			if _, err := nd.MetaRepo.GetMetadata(mark); err != nil {
				ok = false
			}
		}
		if ok {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	for _, nd := range c.Nodes {
		if nd.Raft.Raft.AppliedIndex() < ld.Raft.Raft.AppliedIndex() {
			return false
		}
	}
	c.Lost = "commands that raft has handed over are not visible after 30 s"
	return false
}

// Close ends all.
func (c *Cluster) Close() {
	for _, nd := range c.Nodes {
		c.Stop(nd)
		_ = os.RemoveAll(nd.Dir)
	}
}

// Discard reads a body to its end.
func Discard(r *http.Response) {
	_, _ = io.Copy(io.Discard, r.Body)
	_ = r.Body.Close()
}
