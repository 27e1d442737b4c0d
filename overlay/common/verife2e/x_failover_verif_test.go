package verife2e

import (
	"bytes"
	"common/proto/msg"
	"common/proto/pb"
	"common/util"
	"context"
	"encoding/json"
	"fmt"
	"net/url"
	"sort"
	"strings"
	"testing"
	"time"

	"verifharness/vh"

	"google.golang.org/grpc"
	"google.golang.org/grpc/backoff"
	"google.golang.org/grpc/codes"
	grpcstatus "google.golang.org/grpc/status"
	"pgregory.net/rapid"
)

// replicated is an object whose writes may be of unknown outcome.
type replicated struct {
	name  string
	acked map[int32][]byte
	// maybe: contents of uploads that failed, they may have taken effect all the same
	maybe map[string]bool
}

func (o *replicated) fits(seq int32, data []byte) bool {
	if d, ok := o.acked[seq]; ok {
		return bytes.Equal(d, data)
	}
	return o.maybe[string(data)]
}

type failover struct {
	t      *rapid.T
	c      *vh.Case
	cl     *Cluster
	bucket string
	objs   []*replicated
	puts   int
	broken int
	faults int
	no     int
	lost   int
	conns  map[*Proc]*grpc.ClientConn
}

func (f *failover) api() *Proc {
	return f.cl.APIs[rapid.IntRange(0, len(f.cl.APIs)-1).Draw(f.t, "api server")]
}

// put until it succeeds.
func (f *failover) put() {
	o := f.objs[rapid.IntRange(0, len(f.objs)-1).Draw(f.t, "object")]
	p := f.api()
	var last Answer
	if !Eventually(2*patience, func() bool {
		f.no++
		data := content(e2eCase*1000+f.no, 30+f.no%50)
		last = f.cl.Call(p, "PUT", "/v1/objects/"+o.name, nil, map[string]string{"bucket": f.bucket, "digest": Digest(data)}, data)
		var resp putResp
		if last.Err != nil || last.Status != 201 || json.Unmarshal(last.Body, &resp) != nil {
			f.c.Logf("put %s: %v", o.name, last)
			o.maybe[string(data)] = true
			f.broken++
			time.Sleep(100 * time.Millisecond)
			return false
		}
		f.c.Logf("put %s: version %d", o.name, resp.Version)
		if old := o.acked[resp.Version]; old != nil {
			f.t.Fatalf("version %d of %s is given out twice", resp.Version, o.name)
		}
		o.acked[resp.Version] = data
		f.puts++
		return true
	}) {
		f.t.Fatalf("put %s fails with a majority of the group running: %v", o.name, last)
	}
}

// check that what was acknowledged is there, once followers have caught up.
func (f *failover) check(o *replicated) {
	p := f.api()
	h := map[string]string{"bucket": f.bucket}
	var last string
	var vs []version
	if !Eventually(2*patience, func() bool {
		a := f.cl.Call(p, "GET", "/v1/metadata/"+o.name+"/versions", url.Values{"page": {"1"}, "page_size": {"1000"}}, h, nil)
		last = a.String()
		vs = nil
		if a.Err != nil || a.Status == 404 && len(o.acked) > 0 || a.Status != 200 && a.Status != 404 {
			return false
		}
		if a.Status == 404 {
			return true
		}
		if json.Unmarshal(a.Body, &vs) != nil {
			return false
		}
		have := map[int32]bool{}
		for _, v := range vs {
			have[v.Sequence] = true
		}
		for s := range o.acked {
			if !have[s] {
				last = fmt.Sprintf("version %d is missing in %v", s, a)
				return false
			}
		}
		return true
	}) {
		f.t.Fatalf("%s: %s; acknowledged are %v", o.name, last, o.seqs())
	}
	if !sort.SliceIsSorted(vs, func(i, j int) bool { return vs[i].Sequence < vs[j].Sequence }) {
		f.t.Fatalf("versions of %s are listed as %v", o.name, vs)
	}
	for _, v := range vs {
		v := v
		if _, ok := o.acked[v.Sequence]; !ok {
			f.c.Class("unacknowledged version")
		}
		var a Answer
		if !Eventually(2*patience, func() bool {
			a = f.cl.Call(p, "GET", "/v1/objects/"+o.name, url.Values{"version": {fmt.Sprint(v.Sequence)}}, h, nil)
			return a.Err == nil && a.Status == 200
		}) {
			f.t.Fatalf("%s version %d is listed, but reading it: %v", o.name, v.Sequence, a)
		}
		if !o.fits(v.Sequence, a.Body) {
			f.t.Fatalf("%s version %d is another content (acknowledged %t)", o.name, v.Sequence, o.acked[v.Sequence] != nil)
		}
	}
}

func (o *replicated) seqs() (r []int32) {
	for s := range o.acked {
		r = append(r, s)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return
}

// fault stops or kills a member while all others run, or starts the one that is down.
func (f *failover) fault() {
	for _, p := range f.cl.Metas {
		if !p.Alive() {
			f.c.Logf("start %s", p.ID)
			f.cl.Start(p)
			return
		}
	}
	var p *Proc
	if rapid.IntRange(0, 2).Draw(f.t, "leader") < 2 {
		p = f.cl.Leader()
	}
	if p == nil {
		p = f.cl.Metas[rapid.IntRange(0, len(f.cl.Metas)-1).Draw(f.t, "member")]
	} else {
		f.c.Class("leader gone")
	}
	kill := rapid.Bool().Draw(f.t, "kill")
	f.c.Logf("end %s, kill %t", p.ID, kill)
	f.faults++
	if kill {
		f.cl.Crash(p)
	} else if err := f.cl.Stop(p); err != nil {
		f.t.Fatal(err)
	}
}

// attempt one upload that may fail.
func (f *failover) attempt() {
	o := f.objs[rapid.IntRange(0, len(f.objs)-1).Draw(f.t, "object")]
	f.no++
	data := content(e2eCase*1000+f.no, 30+f.no%50)
	a := f.cl.Call(f.api(), "PUT", "/v1/objects/"+o.name, nil, map[string]string{"bucket": f.bucket, "digest": Digest(data)}, data)
	var resp putResp
	if a.Err != nil || a.Status != 201 || json.Unmarshal(a.Body, &resp) != nil {
		f.c.Logf("attempt %s: %v", o.name, a)
		o.maybe[string(data)] = true
		return
	}
	f.c.Class("accepted without a majority")
	if old := o.acked[resp.Version]; old != nil {
		f.t.Fatalf("version %d of %s is given out twice", resp.Version, o.name)
	}
	o.acked[resp.Version] = data
}

// noMajority kills members at once until one is left, which is written to.
func (f *failover) noMajority() {
	if f.lost > 0 {
		return
	}
	f.lost++
	stay := f.cl.Leader()
	if stay == nil || rapid.IntRange(0, 2).Draw(f.t, "any stays") == 2 {
		stay = f.cl.Metas[rapid.IntRange(0, len(f.cl.Metas)-1).Draw(f.t, "stays")]
	}
	if !stay.Alive() {
		return
	}
	f.c.Class("no majority")
	f.c.Logf("only %s stays", stay.ID)
	for _, p := range f.cl.Metas {
		if p != stay && p.Alive() {
			f.faults++
			f.cl.Crash(p)
		}
	}
	for i := rapid.IntRange(1, 2).Draw(f.t, "attempts"); i > 0; i-- {
		f.attempt()
	}
	if rapid.Bool().Draw(f.t, "ends too") {
		f.cl.Crash(stay)
	}
	for _, p := range f.cl.Metas {
		if !p.Alive() {
			f.cl.Start(p)
		}
	}
}

// listed versions of o at one member.
func (f *failover) listed(p *Proc, o *replicated) (string, error) {
	conn := f.conns[p]
	if conn == nil {
		var err error
		if conn, err = grpc.Dial(p.Addr, grpc.WithInsecure(), grpc.WithConnectParams(grpc.ConnectParams{Backoff: backoff.Config{BaseDelay: 50 * time.Millisecond, Multiplier: 1, MaxDelay: 50 * time.Millisecond}})); err != nil {
			return "", err
		}
		f.conns[p] = conn
	}
	resp, err := pb.NewMetadataApiClient(conn).ListVersion(context.Background(), &pb.MetaReq{Id: f.bucket + "/" + o.name, Page: &pb.Pageable{Page: 1, PageSize: 1000}})
	if grpcstatus.Code(err) == codes.NotFound {
		return "[]", nil
	}
	if err != nil {
		return "", err
	}
	vs, err := util.DecodeArrayMsgp(resp.Data, func() *msg.Version { return new(msg.Version) })
	if err != nil {
		return "", err
	}
	bt, err := json.Marshal(vs)
	return string(bt), err
}

// converge: all members come to have the same versions.
func (f *failover) converge() {
	for _, o := range f.objs {
		o := o
		lists := make([]string, len(f.cl.Metas))
		if !Eventually(2*patience, func() bool {
			same := true
			for i, p := range f.cl.Metas {
				l, err := f.listed(p, o)
				if err != nil {
					l = err.Error()
					same = false
				}
				lists[i] = l
				same = same && l == lists[0]
			}
			return same
		}) {
			f.t.Fatalf("the members do not come to agree on %s:\n%s", o.name, strings.Join(lists, "\n"))
		}
		var vs []msg.Version
		must(json.Unmarshal([]byte(lists[0]), &vs))
		have := map[int32]bool{}
		hashes := map[string]uint64{}
		for _, v := range vs {
			have[int32(v.Sequence)] = true
			if n, ok := hashes[v.Hash]; ok {
				f.t.Fatalf("%s has the upload of version %d again as version %d", o.name, n, v.Sequence)
			}
			hashes[v.Hash] = v.Sequence
		}
		for s := range o.acked {
			if !have[s] {
				f.t.Fatalf("%s: version %d is missing at all members: %s", o.name, s, lists[0])
			}
		}
	}
}

// TestVerif_A12_failover ends members of a group of metadata servers.
func TestVerif_A12_failover(t *testing.T) {
	cl := start(Options{Metas: 3, Datas: 3, APIs: 2, Raft: true, API: apiSync})
	defer stop()
	conns := map[*Proc]*grpc.ClientConn{}
	vh.Check(t, vh.N(6, 120), "8-25 requests to a cluster of 3 metadata servers in a group, 3 data and 2 API servers; members are killed or stopped, one at a time or all but one, and started again; non-trivial: at least 3 accepted uploads and 2 members ended", func(t *rapid.T, c *vh.Case) {
		e2eCase++
		f := &failover{t: t, c: c, cl: cl, bucket: fmt.Sprint("f", e2eCase), conns: conns}
		for _, p := range cl.Metas {
			if !p.Alive() {
				cl.Start(p)
			}
		}
		for _, n := range []string{"x", "y.tar.gz", "z"} {
			f.objs = append(f.objs, &replicated{n, map[int32][]byte{}, map[string]bool{}})
		}
		var a Answer
		if !Eventually(2*patience, func() bool {
			a = cl.JSON(f.api(), "POST", "/v1/bucket", bucket{Name: f.bucket, Versioning: true, VersionRemains: 1000})
			return a.Err == nil && a.Status == 201
		}) {
			t.Fatalf("no bucket: %v", a)
		}
		n := rapid.IntRange(8, 25).Draw(t, "ops")
		for i := 0; i < n; i++ {
			switch rapid.SampledFrom([]string{"fault", "put", "put", "no majority", "check", "put"}).Draw(t, "op") {
			case "put":
				f.put()
			case "check":
				f.check(f.objs[rapid.IntRange(0, len(f.objs)-1).Draw(t, "object")])
			case "fault":
				f.fault()
			case "no majority":
				f.noMajority()
			}
		}
		for _, p := range cl.Metas {
			if !p.Alive() {
				cl.Start(p)
			}
		}
		for _, o := range f.objs {
			f.check(o)
		}
		f.converge()
		c.ClassIf(f.broken > 0, "requests failed")
		if f.puts >= 3 && f.faults >= 2 {
			c.NonTrivial()
		}
	})
}
