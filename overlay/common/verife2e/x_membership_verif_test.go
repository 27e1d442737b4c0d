package verife2e

import (
	"common/proto/pb"
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"verifharness/vh"

	"google.golang.org/grpc"
	"google.golang.org/grpc/backoff"
	"pgregory.net/rapid"
)

// membership of the group, as the answers of the servers say.
type membership struct {
	*failover
	in     map[*Proc]bool
	stale  map[*Proc]bool // left as leader: raft has shut down there until the server starts again
	joins  int
	leaves int
}

func (m *membership) members() (r []*Proc) {
	for _, p := range m.cl.Metas {
		if m.in[p] {
			r = append(r, p)
		}
	}
	return
}

func ids(ps []*Proc) string {
	var r []string
	for _, p := range ps {
		r = append(r, p.ID)
	}
	return strings.Join(r, " ")
}

func (m *membership) conn(p *Proc) *grpc.ClientConn {
	conn := m.conns[p]
	if conn == nil {
		var err error
		conn, err = grpc.Dial(p.Addr, grpc.WithInsecure(), grpc.WithConnectParams(grpc.ConnectParams{Backoff: backoff.Config{BaseDelay: 50 * time.Millisecond, Multiplier: 1, MaxDelay: 50 * time.Millisecond}}))
		must(err)
		m.conns[p] = conn
	}
	return conn
}

// ctx of a request that is answered soon, or never.
func (m *membership) ctx() context.Context {
	ctx, cancel := context.WithTimeout(context.Background(), patience)
	time.AfterFunc(2*patience, cancel)
	return ctx
}

func answer(r *pb.Response, err error) string {
	if err != nil {
		return err.Error()
	}
	if !r.Success {
		return "refused: " + r.Message
	}
	return ""
}

// peers p knows of, with the leader.
func (m *membership) peers(p *Proc) (addrs []string, leader string, err error) {
	resp, err := pb.NewRaftCmdClient(m.conn(p)).Peers(m.ctx(), &pb.EmptyReq{})
	if err != nil {
		return nil, "", err
	}
	var v struct {
		Peers    []string `json:"peers"`
		LeaderID string   `json:"leaderId"`
	}
	if err = json.Unmarshal([]byte(resp.Message), &v); err != nil {
		return nil, "", err
	}
	sort.Strings(v.Peers)
	return v.Peers, v.LeaderID, nil
}

// leader all running members agree on.
func (m *membership) leader() *Proc {
	var leader *Proc
	var last string
	if !Eventually(2*patience, func() bool {
		leader, last = nil, ""
		for _, p := range m.members() {
			if !p.Alive() {
				continue
			}
			_, id, err := m.peers(p)
			last += fmt.Sprint(p.ID, ": ", id, " ", err, "; ")
			for _, q := range m.members() {
				if q.ID == id && q.Alive() && m.cl.Leader() == q && (leader == nil || leader == q) {
					leader = q
					id = ""
				}
			}
			if id != "" || leader == nil {
				leader = nil
				return false
			}
		}
		return leader != nil
	}) {
		m.t.Fatalf("members %s agree on no leader: %s (registered %v)", ids(m.members()), last, m.cl.Leader())
	}
	return leader
}

// configured members at p.
func (m *membership) configured(p *Proc) map[string]bool {
	resp, err := pb.NewRaftCmdClient(m.conn(p)).Config(m.ctx(), &pb.EmptyReq{})
	if err != nil {
		m.t.Fatalf("configuration of %s: %v", p.ID, err)
	}
	var v struct{ Nodes []string }
	must(json.Unmarshal([]byte(resp.Message), &v))
	r := map[string]bool{}
	for _, n := range v.Nodes {
		r[n] = true
	}
	return r
}

// agreed: all running members name exactly the members.
func (m *membership) agreed() {
	var want []string
	for _, p := range m.members() {
		want = append(want, p.Addr)
	}
	sort.Strings(want)
	for _, p := range m.members() {
		if !p.Alive() {
			continue
		}
		var have []string
		var err error
		if !Eventually(2*patience, func() bool {
			have, _, err = m.peers(p)
			return err == nil && fmt.Sprint(have) == fmt.Sprint(want)
		}) {
			m.t.Fatalf("%s names members %v (%v), they are %s %v", p.ID, have, err, ids(m.members()), want)
		}
	}
}

func (m *membership) join(p *Proc) {
	if m.stale[p] {
		m.c.Class("back after a new start")
		m.c.Logf("start %s again", p.ID)
		if err := m.cl.Stop(p); err != nil {
			m.t.Fatal(err)
		}
		delete(m.stale, p)
	}
	if !p.Alive() {
		m.cl.Start(p)
	}
	leader := m.leader()
	var last string
	if !Eventually(2*patience, func() bool {
		leader = m.leader()
		last = answer(pb.NewRaftCmdClient(m.conn(p)).JoinLeader(m.ctx(), &pb.JoinLeaderReq{MasterId: leader.ID}))
		return last == ""
	}) {
		m.t.Fatalf("%s does not join %s: %s", p.ID, leader.ID, last)
	}
	m.c.Logf("%s joined %s", p.ID, leader.ID)
	m.in[p] = true
	m.joins++
	m.agreed()
	for _, q := range []*Proc{leader, p} {
		if n := p.ID + "," + p.Addr; !m.configured(q)[n] {
			m.t.Fatalf("%s has joined through %s, at %s are configured %v", p.ID, leader.ID, q.ID, m.configured(q))
		}
	}
}

func (m *membership) leave() {
	leader := m.leader()
	p := leader
	if !rapid.Bool().Draw(m.t, "leader leaves") {
		ms := m.members()
		p = ms[rapid.IntRange(0, len(ms)-1).Draw(m.t, "leaves")]
	}
	if !p.Alive() {
		m.cl.Start(p)
		leader = m.leader()
	}
	var last string
	asked := 0
	// what is answered with an error may have happened
	left := func() bool {
		for _, q := range m.members() {
			addrs, _, err := m.peers(q)
			if q == p || err != nil {
				continue
			}
			for _, a := range addrs {
				if a == p.Addr {
					return false
				}
			}
			return true
		}
		return false
	}
	if !Eventually(2*patience, func() bool {
		asked++
		last = answer(pb.NewRaftCmdClient(m.conn(p)).LeaveCluster(m.ctx(), &pb.EmptyReq{}))
		return last == "" || left()
	}) {
		m.t.Fatalf("%s does not leave: %s", p.ID, last)
	}
	m.c.Logf("%s left, leader was %s", p.ID, leader.ID)
	m.in[p] = false
	m.leaves++
	// certainly removed by the leader seen before
	plain := p != leader && asked == 1 && m.leader() == leader
	if p == leader {
		m.c.Class("leader leaves")
	}
	m.c.ClassIf(asked > 1, "left at another attempt")
	m.stale[p] = !plain
	if plain && rapid.IntRange(0, 2).Draw(m.t, "comes back") == 2 {
		m.c.Class("back at once")
		m.join(p)
		return
	}
	m.agreed()
	if plain && m.leader() == leader && m.configured(leader)[p.ID+","+p.Addr] {
		m.t.Fatalf("%s has left %s, where still are configured %v", p.ID, leader.ID, m.configured(leader))
	}
}

func (m *membership) fault() {
	ms := m.members()
	down := 0
	for _, p := range ms {
		if !p.Alive() {
			m.c.Logf("start %s", p.ID)
			m.cl.Start(p)
			return
		}
	}
	if down > 0 || len(ms) < 3 {
		return
	}
	p := ms[rapid.IntRange(0, len(ms)-1).Draw(m.t, "member")]
	m.c.Logf("kill %s", p.ID)
	m.c.Class("member killed")
	m.faults++
	m.cl.Crash(p)
}

// running: all members run.
func (m *membership) running() {
	for _, p := range m.members() {
		if !p.Alive() {
			m.cl.Start(p)
		}
	}
}

// TestVerif_A14_bootstrap makes a group of servers that belong to none.
func TestVerif_A14_bootstrap(t *testing.T) {
	vh.Check(t, vh.N(3, 15), "3 metadata servers that belong to no group; one is told to found one, of itself or of a list of 1-3 servers; non-trivial: all", func(t *rapid.T, c *vh.Case) {
		stop()
		cl := start(Options{Metas: 3, Spares: 3, Raft: true})
		defer stop()
		m := &membership{failover: &failover{t: t, c: c, cl: cl, conns: map[*Proc]*grpc.ClientConn{}}, in: map[*Proc]bool{}}
		first := rapid.IntRange(0, 2).Draw(t, "founder")
		n := rapid.IntRange(0, 3).Draw(t, "listed")
		req := &pb.BootstrapReq{}
		m.in[cl.Metas[first]] = true
		for i := 0; i < n; i++ {
			p := cl.Metas[(first+i)%3]
			m.in[p] = true
			req.Services = append(req.Services, &pb.RaftServerItem{Id: p.ID, Address: p.Addr})
		}
		if a := answer(pb.NewRaftCmdClient(m.conn(cl.Metas[first])).Bootstrap(m.ctx(), req)); a != "" {
			t.Fatalf("no group: %s", a)
		}
		m.leader()
		m.agreed()
		for _, p := range cl.Metas {
			if !m.in[p] {
				m.join(p)
				break
			}
		}
		c.Class(fmt.Sprint("listed: ", n))
		c.NonTrivial()
	})
}

// TestVerif_A14_membership lets metadata servers join and leave a group that serves.
func TestVerif_A14_membership(t *testing.T) {
	defer stop()
	var conns map[*Proc]*grpc.ClientConn
	var in, stale map[*Proc]bool
	vh.Check(t, vh.N(6, 100), "6-16 steps at a cluster of 4 metadata servers, of which some are members of the group, 3 data and 2 API servers: servers join, members (also the leader) leave, are killed and started again between uploads; non-trivial: at least 2 accepted uploads and 2 servers that joined or left", func(t *rapid.T, c *vh.Case) {
		e2eCase++
		if cluster == nil {
			c := start(Options{Metas: 4, Spares: 3, Datas: 3, APIs: 2, Raft: true, API: apiSync})
			conns, in, stale = map[*Proc]*grpc.ClientConn{}, map[*Proc]bool{c.Metas[0]: true}, map[*Proc]bool{}
		}
		cl := cluster
		done := false
		defer func() {
			// what follows must not depend on what failed
			if !done {
				stop()
			}
		}()
		f := &failover{t: t, c: c, cl: cl, bucket: fmt.Sprint("g", e2eCase), conns: conns}
		m := &membership{failover: f, in: in, stale: stale}
		m.running()
		for _, n := range []string{"x", "y.tar.gz"} {
			f.objs = append(f.objs, &replicated{n, map[int32][]byte{}, map[string]bool{}})
		}
		var a Answer
		if !Eventually(2*patience, func() bool {
			a = cl.JSON(f.api(), "POST", "/v1/bucket", bucket{Name: f.bucket, Versioning: true, VersionRemains: 1000})
			return a.Err == nil && a.Status == 201
		}) {
			t.Fatalf("no bucket: %v", a)
		}
		n := rapid.IntRange(6, 16).Draw(t, "ops")
		for i := 0; i < n; i++ {
			switch rapid.SampledFrom([]string{"join", "put", "leave", "put", "join", "fault", "check"}).Draw(t, "op") {
			case "put":
				m.put()
			case "check":
				m.check(f.objs[rapid.IntRange(0, len(f.objs)-1).Draw(t, "object")])
			case "fault":
				m.fault()
			case "join":
				var out []*Proc
				for _, p := range cl.Metas {
					if !in[p] {
						out = append(out, p)
					}
				}
				if len(out) > 0 {
					m.join(out[rapid.IntRange(0, len(out)-1).Draw(t, "joins")])
				}
			case "leave":
				if len(m.members()) > 1 {
					m.running()
					m.leave()
				}
			}
		}
		m.running()
		for _, o := range f.objs {
			m.check(o)
		}
		m.agreed()
		all := cl.Metas
		cl.Metas = m.members()
		m.converge()
		cl.Metas = all
		c.Class(fmt.Sprint("members at the end: ", len(m.members())))
		c.ClassIf(f.broken > 0, "requests failed")
		done = true
		if f.puts >= 2 && m.joins+m.leaves >= 2 {
			c.NonTrivial()
		}
	})
}
