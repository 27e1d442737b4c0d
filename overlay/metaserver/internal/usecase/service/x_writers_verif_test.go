package service_test

import (
	"common/proto/msg"
	"fmt"
	. "metaserver/internal/verifenv"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"pgregory.net/rapid"
	"verifharness/fakeetcd"
	"verifharness/vh"
)

// wop is one write of a client.
type wop struct {
	kind string
	id   string
	ver  uint64 // 0: the last number the client got
	text string // what makes its content different from all others
	idx  int
	ds   int32
	hash string
}

// wres is its answer.
type wres struct {
	err Err
	num uint64
	// content of the object, of the last operation only
	state string
}

func (o wop) String() string {
	return fmt.Sprintf("%s(%s ver %d %s)", o.kind, o.id, o.ver, o.text)
}

// wver and wobj are the sequential model of one object.
type wver struct {
	hash   string
	ds     int32
	locate [2]string
}

type wobj struct {
	exists bool
	seq    uint64
	name   string
	vers   map[uint64]wver
}

func (o wobj) clone() wobj {
	c := o
	c.vers = make(map[uint64]wver, len(o.vers))
	for k, v := range o.vers {
		c.vers[k] = v
	}
	return c
}

// text is the content as the final reads tell it.
func (o wobj) text() string {
	if !o.exists {
		return "absent"
	}
	var nums []uint64
	for k := range o.vers {
		nums = append(nums, k)
	}
	sort.Slice(nums, func(i, j int) bool { return nums[i] < nums[j] })
	var first, last uint64
	if len(nums) > 0 {
		first, last = nums[0], nums[len(nums)-1]
	}
	s := fmt.Sprintf("%s total %d first %d last %d", o.name, len(nums), first, last)
	byHash := map[string][]string{}
	for _, n := range nums {
		v := o.vers[n]
		x := fmt.Sprintf("%d:%s:%d:%s,%s", n, v.hash, v.ds, v.locate[0], v.locate[1])
		s += " " + x
		byHash[v.hash] = append(byHash[v.hash], x)
	}
	for _, h := range vh.Keys(byHash) {
		s += fmt.Sprintf(" | %s: %s", h, strings.Join(byHash[h], " "))
	}
	return s
}

// writers is the sequential specification; onRaft accepts that a repeated creation counts as done.
func writers(onRaft bool) porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return wobj{} },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			o, op, r := st.(wobj).clone(), in.(wop), out.(wres)
			switch op.kind {
			case "add object":
				if o.exists {
					return r.err == Exists || onRaft && r.err == OK, o
				}
				return r.err == OK, wobj{exists: true, name: op.text, vers: map[uint64]wver{}}
			case "update object":
				if !o.exists {
					return r.err == NotFound, o
				}
				if r.err == Old {
					return true, o
				}
				o.name = op.text
				return r.err == OK, o
			case "remove object":
				return r.err == OK, wobj{}
			case "add version":
				if !o.exists {
					return r.err == NotFound, o
				}
				o.seq++
				o.vers[o.seq] = wver{op.hash, op.ds, [2]string{op.text, "b"}}
				return r.err == OK && r.num == o.seq, o
			case "update version":
				v, ok := o.vers[op.ver]
				if !ok {
					return r.err == NotFound, o
				}
				if r.err == Old {
					return true, o
				}
				o.vers[op.ver] = wver{v.hash, op.ds, [2]string{op.text, "b"}}
				return r.err == OK, o
			case "remove version":
				if !o.exists {
					return r.err == OK || r.err == NotFound, o
				}
				if _, ok := o.vers[op.ver]; !ok {
					return r.err == NotFound, o
				}
				delete(o.vers, op.ver)
				return r.err == OK, o
			case "remove versions":
				if !o.exists {
					return r.err == OK || r.err == NotFound, o
				}
				o.vers = map[uint64]wver{}
				return r.err == OK, o
			case "locate":
				for n, v := range o.vers {
					if v.hash == op.hash {
						v.locate[op.idx] = op.text
						o.vers[n] = v
					}
				}
				return r.err == OK, o
			case "final":
				return o.text() == r.state, o
			}
			panic(op.kind)
		},
		Equal: func(a, b interface{}) bool {
			x, y := a.(wobj), b.(wobj)
			return x.exists == y.exists && x.seq == y.seq && x.text() == y.text()
		},
		DescribeOperation: func(in, out interface{}) string {
			r := out.(wres)
			return fmt.Sprintf("%v -> %v %d %s", in.(wop), r.err, r.num, r.state)
		},
	}
}

// exec runs one write at the service.
func exec(e *Env, o wop) (wres, error) {
	mk := func() *msg.Version {
		return &msg.Version{Hash: o.hash, Size: 1, DataShards: o.ds, Locate: []string{o.text, "b"}}
	}
	var err error
	var n int
	switch o.kind {
	case "add object":
		err = e.Meta.AddMetadata(o.id, &msg.Metadata{Name: o.text, Bucket: "b"})
	case "update object":
		err = e.Meta.UpdateMetadata(o.id, &msg.Metadata{Name: o.text, Bucket: "b"})
	case "remove object":
		err = e.Meta.RemoveMetadata(o.id)
	case "add version":
		n, err = e.Meta.AddVersion(o.id, mk())
	case "update version":
		err = e.Meta.UpdateVersion(o.id, int(o.ver), mk())
	case "remove version":
		err = e.Meta.RemoveVersion(o.id, int(o.ver))
	case "remove versions":
		err = e.Meta.RemoveVersion(o.id, -1)
	case "locate":
		err = e.Meta.UpdateLocates(o.hash, o.idx, o.text)
	}
	r := wres{err: ClassOf(err)}
	if err == nil && o.kind == "add version" {
		r.num = uint64(n)
	}
	return r, err
}

// finalState reads everything of one object.
func finalState(e *Env, id string, hashes []string) (string, error) {
	meta, _, err := e.Meta.GetMetadata(id, -1, true)
	var s string
	if err != nil {
		if ClassOf(err) != NotFound {
			return "", err
		}
		s = "absent"
	} else {
		s = fmt.Sprintf("%s total %d first %d last %d", meta.Name, meta.Extra.Total, meta.Extra.FirstVersion, meta.Extra.LastVersion)
		lst, total, err := e.Meta.ListVersions(id, 1, 10000)
		if err != nil || total != len(lst) {
			return "", fmt.Errorf("list of %d, total %d: %v", len(lst), total, err)
		}
		for _, v := range lst {
			x := wtext(v)
			s += " " + x
			one, err := e.Meta.GetVersion(id, int(v.Sequence))
			if err != nil || wtext(one) != x {
				return "", fmt.Errorf("version %d read alone: %+v, %v, in the list %s", v.Sequence, one, err, x)
			}
		}
	}
	for _, h := range hashes {
		vs, err := e.Meta.FindByHash(h)
		if err != nil {
			return "", err
		}
		if len(vs) > 0 {
			s += fmt.Sprintf(" | %s:", h)
			sort.Slice(vs, func(i, j int) bool { return vs[i].Sequence < vs[j].Sequence })
			for _, v := range vs {
				s += " " + wtext(v)
			}
		}
	}
	return s, nil
}

func wtext(v *msg.Version) string {
	l := append(append([]string{}, v.Locate...), "", "")
	return fmt.Sprintf("%d:%s:%d:%s,%s", v.Sequence, v.Hash, v.DataShards, l[0], l[1])
}

// concurrently lets the clients of one case write, and decides whether the answers and the final
// content are those of some sequential order.
func concurrently(t *rapid.T, c *vh.Case, e *Env, pre string, onRaft bool) {
	nObj := rapid.IntRange(1, 2).Draw(t, "objects")
	var ids []string
	hashes := map[string][]string{}
	for i := 0; i < nObj; i++ {
		id := pre + []string{"a", "a.1"}[i]
		ids = append(ids, id)
		// hashes are looked up per object
		hashes[id] = []string{id + "-h1", id + "-h2"}
	}
	nClients := rapid.IntRange(2, 5).Draw(t, "clients")
	scripts := make([][]wop, nClients)
	for i := range scripts {
		n := rapid.IntRange(2, 8).Draw(t, "ops")
		for j := 0; j < n; j++ {
			id := rapid.SampledFrom(ids).Draw(t, "id")
			o := wop{id: id, text: fmt.Sprintf("c%d.%d", i, j), ds: int32(i*100 + j)}
			o.hash = rapid.SampledFrom(hashes[id]).Draw(t, "hash")
			switch rapid.IntRange(0, 15).Draw(t, "kind") {
			case 0:
				o.kind = "add object"
			case 1:
				o.kind = "update object"
			case 2:
				o.kind = "remove object"
			case 3, 4, 5, 6, 7, 8:
				o.kind = "add version"
			case 9, 10:
				o.kind, o.ver = "update version", uint64(rapid.IntRange(0, 6).Draw(t, "ver"))
			case 11, 12:
				o.kind, o.ver = "remove version", uint64(rapid.IntRange(0, 6).Draw(t, "ver"))
			case 13:
				if rapid.IntRange(0, 3).Draw(t, "all") == 0 {
					o.kind = "remove versions"
				} else {
					o.kind = "lookup"
				}
			case 14:
				o.kind, o.idx = "locate", rapid.IntRange(0, 1).Draw(t, "idx")
			case 15:
				o.kind = "lookup"
			}
			scripts[i] = append(scripts[i], o)
		}
	}
	start := time.Now()
	var mu sync.Mutex
	hist := map[string][]porcupine.Operation{}
	record := func(cl int, o wop, r wres, from, to time.Duration) {
		mu.Lock()
		defer mu.Unlock()
		hist[o.id] = append(hist[o.id], porcupine.Operation{ClientId: cl, Input: o, Call: int64(from), Output: r, Return: int64(to)})
	}
	var busy atomic.Bool
	do := func(cl int, o wop) wres {
		from := time.Since(start)
		r, err := exec(e, o)
		to := time.Since(start)
		if raftBusy(err) {
			busy.Store(true)
		}
		record(cl, o, r, from, to)
		return r
	}
	for _, id := range ids {
		do(0, wop{kind: "add object", id: id, text: "first"})
	}
	var wg sync.WaitGroup
	for i := range scripts {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			last := map[string]uint64{}
			for _, o := range scripts[i] {
				if o.kind == "lookup" {
					_, _ = e.Meta.FindByHash(o.hash)
					_, _, _ = e.Meta.GetMetadata(o.id, 0, true)
					continue
				}
				if o.ver == 0 && (o.kind == "update version" || o.kind == "remove version") {
					if o.ver = last[o.id]; o.ver == 0 {
						o.ver = 1
					}
				}
				r := do(i, o)
				if r.err == OK && o.kind == "add version" {
					last[o.id] = r.num
				}
			}
		}()
	}
	wg.Wait()
	if busy.Load() {
		c.Class("unsteady cluster")
		return
	}
	overlaps, added := 0, 0
	for _, id := range ids {
		from := time.Since(start)
		s, err := finalState(e, id, hashes[id])
		if err != nil {
			t.Fatalf("final read of %q: %v", id, err)
		}
		record(0, wop{kind: "final", id: id}, wres{state: s}, from, time.Since(start))
		ops := hist[id]
		for i, a := range ops {
			if a.Input.(wop).kind == "add version" && a.Output.(wres).err == OK {
				added++
			}
			for _, b := range ops[:i] {
				if a.Call <= b.Return && b.Call <= a.Return {
					overlaps++
				}
			}
		}
		switch porcupine.CheckOperationsTimeout(writers(onRaft), ops, 20*time.Second) {
		case porcupine.Illegal:
			sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
			var b strings.Builder
			for _, o := range ops {
				fmt.Fprintf(&b, "  client %d [%d,%d] %s\n", o.ClientId, o.Call, o.Return, writers(onRaft).DescribeOperation(o.Input, o.Output))
			}
			t.Fatalf("no order of these operations gives these answers and this content:\n%s", b.String())
		case porcupine.Unknown:
			c.Class("undecided")
		}
		c.Logf("%s", s)
	}
	c.ClassIf(added > 0, "versions added")
	if overlaps >= 2 && added >= 2 {
		c.NonTrivial()
	}
}

const writersRule = "at least two operations on an object overlapped and two versions were added"

// TestVerif_M09_direct has concurrent clients of a server without replicas.
func TestVerif_M09_direct(t *testing.T) {
	vh.Check(t, vh.N(1500, 20000), writersRule, func(t *rapid.T, c *vh.Case) {
		e := New(nil, nil)
		defer e.Close()
		concurrently(t, c, e, "b/", false)
	})
}

// TestVerif_M09_direct_race is the same with the race detector.
func TestVerif_M09_direct_race(t *testing.T) {
	vh.Check(t, vh.N(80, 1500), writersRule, func(t *rapid.T, c *vh.Case) {
		e := New(nil, nil)
		defer e.Close()
		concurrently(t, c, e, "b/", false)
	})
}

// TestVerif_M09_raft has concurrent clients of the leader of a cluster of one.
func TestVerif_M09_raft(t *testing.T) {
	onRaft(t, vh.N(400, 6000))
}

func onRaft(t *testing.T, n int) {
	st := fakeetcd.New()
	cli := st.Client()
	PutSlots(cli, "g", "node0", []string{"0-16384"})
	cl := NewCluster(1, cli, cli)
	defer cl.Close()
	caseNo := 0
	vh.Check(t, n, writersRule, func(t *rapid.T, c *vh.Case) {
		caseNo++
		ld := cl.Leader()
		if ld == nil {
			c.Class("no leader")
			return
		}
		concurrently(t, c, ld.Env, fmt.Sprintf("c%d/", caseNo), true)
	})
}
