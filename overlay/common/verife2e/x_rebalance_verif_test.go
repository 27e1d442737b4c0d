package verife2e

import (
	"common/proto/msg"
	"common/proto/pb"
	"common/util"
	"context"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"net"
	"net/url"
	"sort"
	"sync"
	"testing"
	"time"

	"verifharness/vh"

	"google.golang.org/grpc"
	"pgregory.net/rapid"
)

// dial p, it is to be closed.
func dial(p *Proc) *grpc.ClientConn {
	conn, err := grpc.Dial(p.Addr, grpc.WithInsecure())
	must(err)
	return conn
}

// slotsOf every metadata server, as one of them tells.
func (c *Cluster) slotsOf() (map[string][]string, error) {
	conn := dial(c.Metas[0])
	defer conn.Close()
	resp, err := pb.NewHashSlotClient(conn).GetCurrentSlots(context.Background(), new(pb.EmptyReq))
	if err != nil {
		return nil, err
	}
	var m map[string][]string
	return m, json.Unmarshal([]byte(resp.Message), &m)
}

// covered says whether the slots are divided completely, each to one server.
func covered(m map[string][]string) error {
	owner := make([]string, 16384)
	for id, ss := range m {
		for _, s := range ss {
			var a, b int
			if _, err := fmt.Sscanf(s, "%d-%d", &a, &b); err != nil {
				return err
			}
			for i := a; i < b; i++ {
				if owner[i] != "" {
					return fmt.Errorf("slot %d belongs to %s and %s", i, owner[i], id)
				}
				owner[i] = id
			}
		}
	}
	for i, o := range owner {
		if o == "" {
			return fmt.Errorf("slot %d belongs to nobody", i)
		}
	}
	return nil
}

func size(slots []string) (n int) {
	for _, s := range slots {
		var a, b int
		_, err := fmt.Sscanf(s, "%d-%d", &a, &b)
		must(err)
		n += b - a
	}
	return
}

// owner of a key.
func (c *Cluster) owner(key string) (*Proc, error) {
	m, err := c.slotsOf()
	if err != nil {
		return nil, err
	}
	slot := int(crc32.ChecksumIEEE([]byte(key)) & 16383)
	for _, p := range c.Metas {
		for _, s := range m[p.ID] {
			var a, b int
			if _, err = fmt.Sscanf(s, "%d-%d", &a, &b); err == nil && a <= slot && slot < b {
				return p, nil
			}
		}
	}
	return nil, fmt.Errorf("nobody owns slot %d", slot)
}

// fill the metadata servers with n records, so that migrations take a while.
func (c *Cluster) fill(n int) {
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			conns := map[*Proc]*grpc.ClientConn{}
			for i := k; i < n; i += 8 {
				key := fmt.Sprint("fill/", i)
				p, err := c.owner(key)
				must(err)
				if conns[p] == nil {
					conns[p] = dial(p)
				}
				bt, err := util.EncodeMsgp(&msg.Metadata{Name: fmt.Sprint(i), Bucket: "fill"})
				must(err)
				_, err = pb.NewMetadataApiClient(conns[p]).SaveMetadata(context.Background(), &pb.Metadata{Id: key, Msgpack: bt})
				must(err)
			}
			for _, c := range conns {
				_ = c.Close()
			}
		}(k)
	}
	wg.Wait()
}

// background requests of one client to an object or bucket of its own.
type background struct {
	o      *object
	b      *bucket
	acked  int
	failed int
	err    error
	data   map[int32][]byte
	maybe  map[string]bool
	remain []int // policies sent since the last acknowledged one, which is first
}

type rebalance struct {
	*world
	moves, refused, busy int
	no                   int
}

// meanwhile runs clients until f returns.
func (r *rebalance) meanwhile(n int, f func()) []*background {
	var bs []*background
	for i := 0; i < n; i++ {
		r.no++
		b := &background{data: map[int32][]byte{}, maybe: map[string]bool{}}
		name := fmt.Sprintf("bg%d-%d", e2eCase, r.no)
		b.b = &bucket{Name: name, Versioning: true, VersionRemains: 1000}
		if a := r.call("POST", "/v1/bucket", nil, isJSON, js(b.b), status(201)); a.Status != 201 {
			r.t.Fatalf("creating bucket %q: %v", name, a)
		}
		b.o = r.object(name, "o")
		b.remain = []int{1000}
		bs = append(bs, b)
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for i, b := range bs {
		wg.Add(1)
		go func(i int, b *background) {
			defer wg.Done()
			p := r.cl.APIs[i%len(r.cl.APIs)]
			for k := 0; ; k++ {
				if i%3 == 2 {
					next := *b.b
					next.VersionRemains = 1001 + k
					a := r.cl.Call(p, "PUT", "/v1/bucket/"+url.PathEscape(next.Name), nil, isJSON, js(next))
					if a.Err == nil && a.Status == 200 {
						b.remain = []int{next.VersionRemains}
						b.acked++
					} else {
						b.remain = append(b.remain, next.VersionRemains)
						b.failed++
					}
				} else {
					data := []byte(fmt.Sprintf("%d.%d.%s", i, k, b.b.Name))
					a := r.cl.Call(p, "PUT", b.o.path(), nil, map[string]string{"bucket": b.b.Name, "digest": Digest(data)}, data)
					var resp putResp
					if a.Err != nil || a.Status != 201 || json.Unmarshal(a.Body, &resp) != nil {
						b.maybe[string(data)] = true
						b.failed++
					} else if b.data[resp.Version] != nil {
						b.err = fmt.Errorf("two uploads get version %d of %s", resp.Version, b.o)
						return
					} else {
						b.acked++
						b.data[resp.Version] = data
					}
				}
				select {
				case <-stop:
					return
				default:
				}
			}
		}(i, b)
	}
	f()
	close(stop)
	wg.Wait()
	return bs
}

// settle checks the requests of the background and takes their results into the model.
func (r *rebalance) settle(bs []*background) {
	for i, b := range bs {
		r.c.Logf("client %d of %s: %d accepted, %d refused", i, b.b.Name, b.acked, b.failed)
		if b.err != nil {
			r.t.Fatal(b.err)
		}
		if b.failed > 0 && b.acked > 0 {
			r.busy++
		}
		h := map[string]string{"bucket": b.b.Name}
		if i%3 == 2 {
			a := r.call("GET", "/v1/bucket/"+url.PathEscape(b.b.Name), nil, nil, nil, status(200))
			var got bucket
			if a.Status != 200 || json.Unmarshal(a.Body, &got) != nil {
				r.t.Fatalf("bucket %q: %v", b.b.Name, a)
			}
			ok := false
			for _, n := range b.remain {
				ok = ok || got.VersionRemains == n
			}
			if !ok {
				r.t.Fatalf("bucket %q is %+v, the last accepted change and later refused ones set the number of versions to %v", b.b.Name, got, b.remain)
			}
			continue
		}
		a := r.call("GET", "/v1/metadata/o/versions", url.Values{"page": {"1"}, "page_size": {"1000"}}, h, nil, status(200))
		var vs []version
		if a.Status != 200 || json.Unmarshal(a.Body, &vs) != nil {
			if a.Status == 404 && b.acked == 0 {
				continue
			}
			r.t.Fatalf("versions of %s: %v", b.o, a)
		}
		have := map[int32]bool{}
		for _, v := range vs {
			have[v.Sequence] = true
			a := r.call("GET", b.o.path(), url.Values{"version": {fmt.Sprint(v.Sequence)}}, h, nil, status(200))
			want := b.data[v.Sequence]
			if a.Status != 200 || a.Err != nil || want != nil && string(want) != string(a.Body) || want == nil && !b.maybe[string(a.Body)] {
				r.t.Fatalf("version %d of %s, acknowledged as %q: %v", v.Sequence, b.o, want, a)
			}
			b.o.live[v.Sequence] = append([]byte(nil), a.Body...)
			b.o.top = v.Sequence
		}
		for s := range b.data {
			if !have[s] {
				r.t.Fatalf("version %d of %s, which was acknowledged, is gone: %v", s, b.o, a)
			}
		}
	}
}

// migrate a part of a metadata server's slots to another one.
func (r *rebalance) migrate(faults bool) {
	t := r.t
	m, err := r.cl.slotsOf()
	if err != nil {
		t.Fatal(err)
	}
	from := r.cl.Metas[rapid.IntRange(0, len(r.cl.Metas)-1).Draw(t, "from")]
	if rapid.IntRange(0, 3).Draw(t, "any source") > 0 {
		// the one with the most slots
		for _, p := range r.cl.Metas {
			if size(m[p.ID]) > size(m[from.ID]) {
				from = p
			}
		}
	}
	own := m[from.ID]
	if len(own) == 0 {
		return
	}
	to := r.cl.Metas[rapid.IntRange(0, len(r.cl.Metas)-1).Draw(t, "to")]
	if to == from {
		return
	}
	sort.Slice(own, func(i, k int) bool { return size(own[i:i+1]) > size(own[k:k+1]) })
	var a, b int
	_, err = fmt.Sscanf(own[rapid.IntRange(0, len(own)-1).Draw(t, "range")], "%d-%d", &a, &b)
	must(err)
	// large parts, ranges would become ever smaller otherwise
	x, y := a, (a+b+1)/2
	switch rapid.IntRange(0, 7).Draw(t, "how") {
	case 0:
		y = b
	case 1:
		x, y = (a+b)/2, b
	case 2, 3:
		x = rapid.IntRange(a, b-1).Draw(t, "first")
		y = rapid.IntRange(x+1, b).Draw(t, "end")
	case 4:
		if r.refused < 2 && b < 16384 {
			// not all of it belongs to the server, or does if the next range is its own
			y = b + 1
		}
	}
	if x >= y {
		return
	}
	mine := false
	for _, s := range own {
		var c, d int
		_, err = fmt.Sscanf(s, "%d-%d", &c, &d)
		must(err)
		mine = mine || c <= x && y <= d
	}
	kill := faults && rapid.IntRange(0, 2).Draw(t, "kill the target") == 0
	delay := time.Duration(rapid.IntRange(0, 30).Draw(t, "after")) * time.Millisecond
	r.c.Logf("migrate %d-%d from %s %v to %s, kill %t after %s", x, y, from.ID, own, to.ID, kill, delay)
	var resp *pb.Response
	bs := r.meanwhile(rapid.SampledFrom([]int{4, 2, 6, 16}).Draw(t, "clients"), func() {
		time.Sleep(20 * time.Millisecond)
		conn := dial(from)
		defer conn.Close()
		done := make(chan struct{})
		go func() {
			defer close(done)
			host, port, _ := net.SplitHostPort(to.Addr)
			resp, err = pb.NewHashSlotClient(conn).StartMigration(context.Background(), &pb.MigrationReq{Slots: []string{fmt.Sprint(x, "-", y)}, TargetLocation: &pb.LocationInfo{Host: host, Port: port}})
		}()
		if kill {
			time.Sleep(delay)
			r.cl.Crash(to)
		}
		<-done
		if kill {
			r.cl.Start(to)
		}
		// servers learn of the slots a little later
		changed = time.Now()
		time.Sleep(20 * time.Millisecond)
	})
	r.c.Logf("%v %v", resp, err)
	ok := err == nil && resp.Success
	if !kill && ok != mine {
		t.Fatalf("migrating %d-%d from %s %v: %v %v", x, y, from.ID, own, resp, err)
	}
	if !mine {
		r.refused++
	}
	var after map[string][]string
	if !Eventually(patience, func() bool {
		if after, err = r.cl.slotsOf(); err == nil {
			err = covered(after)
		}
		return err == nil || !kill
	}) || err != nil {
		t.Fatalf("slots afterwards: %v %v", after, err)
	}
	if ok {
		r.moves++
		r.c.ClassIf(kill, "target killed, but migrated")
	} else {
		r.c.ClassIf(kill, "migration failed")
	}
	r.settle(bs)
}

// TestVerif_A13_slots moves slots between metadata servers of a cluster in use.
func TestVerif_A13_slots(t *testing.T) {
	cl := start(Options{Metas: 3, Datas: 4, APIs: 2, API: apiSync})
	defer stop()
	cl.fill(600)
	vh.Check(t, vh.N(15, 300), "6-20 requests to a cluster of 3 metadata, 4 data and 2 API servers, among them migrations of slots, during which 2-6 clients upload and change buckets and the target may be killed; non-trivial: at least 2 migrations and some requests refused during one", func(t *rapid.T, c *vh.Case) {
		r := &rebalance{world: newWorld(t, c, cl)}
		r.ops = map[string]func(){"migrate": func() { r.migrate(true) }}
		r.run([]string{"migrate", "put", "read", "migrate", "put", "missing", "burst", "policy"}, rapid.IntRange(6, 20).Draw(t, "ops"))
		c.ClassIf(r.busy > 0, "requests refused during a migration")
		c.ClassIf(r.refused > 0, "refused migration")
		if r.moves >= 2 && r.busy > 0 {
			c.NonTrivial()
		}
	})
}
