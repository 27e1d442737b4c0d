package verifenv

import (
	"apiserver/internal/entity"
	"apiserver/internal/usecase/pool"
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verifharness/vh"

	"pgregory.net/rapid"
)

const patience = 20 * time.Second

var (
	apiOnce sync.Once
	theAPI  *API
	caseNo  int64
)

func api() *API {
	apiOnce.Do(func() { theAPI = NewAPI(7) })
	return theAPI
}

// object is one stored through the object service.
type object struct {
	bucket, name string
	data         []byte
	ver          *entity.Version // as recorded
	shards       [][]byte
}

func (o *object) shard(i int) string { return fmt.Sprint(o.ver.Hash, ".", i) }

// params of what is stored.
type params struct {
	ss       entity.ObjectStrategy
	ds, ps   int
	compress bool
	size     int
}

func (p params) String() string {
	return fmt.Sprintf("strategy %d, %d+%d, compress %t, %d bytes", p.ss, p.ds, p.ps, p.compress, p.size)
}

// blocks is the number of bytes per block and of blocks of an object.
func blocks(ds, ps, size int) (int, int) {
	cfg := pool.Config.Object.ReedSolomon
	b := ds * cfg.BlockPerShard
	if i := b % 65536; i > 0 {
		if b = b - i + 65536; b > size {
			b = size
		}
		if b = b / ds * ds; b == 0 {
			b = ds
		}
	}
	return b, (size + b - 1) / b
}

// genSize favours sizes around the boundaries of blocks and shards.
func genSize(t *rapid.T, block, ds int) int {
	base := rapid.SampledFrom([]int{block, 2 * block, 0, 3*block + ds, block / 2, 4096 * ds, 4096, 100, block + 4096}).Draw(t, "base")
	n := base + rapid.SampledFrom([]int{0, 1, -1, ds, -ds, 7, 1000, -1000}).Draw(t, "delta")
	if n < 1 {
		n = rapid.IntRange(1, 3*ds).Draw(t, "small")
	}
	return n
}

func genRS(t *rapid.T) params {
	p := params{ss: entity.ECReedSolomon}
	p.ds = rapid.SampledFrom([]int{2, 4, 3, 1, 5}).Draw(t, "data")
	p.ps = rapid.SampledFrom([]int{2, 1, 3, 0}).Draw(t, "parity")
	p.compress = rapid.Bool().Draw(t, "compress")
	p.size = genSize(t, 65536, p.ds)
	return p
}

// store through the service, with a bucket demanding the layout.
func store(t *rapid.T, a *API, p params) *object {
	caseNo++
	o := &object{bucket: "b", name: fmt.Sprint("o", caseNo), data: Content(caseNo, p.size)}
	a.Meta.SetBucket(entity.Bucket{Name: "b", Versioning: true, VersionRemains: 1000, StoreStrategy: p.ss, DataShards: p.ds, ParityShards: p.ps, Compress: p.compress})
	_, err := a.Service.StoreObject(
		&entity.PutReq{Name: o.name, Bucket: o.bucket, Hash: Digest(o.data), Body: &Pieces{Data: o.data, Cut: []int{rapid.SampledFrom([]int{1 << 20, 1000, 4096, 70000}).Draw(t, "cut")}}},
		&entity.Metadata{Name: o.name, Bucket: o.bucket, Versions: []*entity.Version{{Size: int64(p.size), Hash: Digest(o.data)}}},
	)
	if err != nil {
		t.Fatalf("storing fails: %s", err)
	}
	vs := a.Meta.Versions(o.bucket, o.name)
	if len(vs) != 1 {
		t.Fatalf("%d versions after storing once", len(vs))
	}
	o.ver = vs[0]
	for i, loc := range o.ver.Locate {
		d := a.At(loc)
		if d == nil || d.Object(o.shard(i)) == nil {
			t.Fatalf("shard %d is not at its location %q", i, loc)
		}
		s := d.Object(o.shard(i))
		if len(s.Data) != o.ver.ShardSize {
			t.Fatalf("shard %d has %d bytes, declared are %d", i, len(s.Data), o.ver.ShardSize)
		}
		if s.Compress != p.compress {
			t.Fatalf("shard %d is stored with compression %t", i, s.Compress)
		}
		o.shards = append(o.shards, s.Data)
	}
	return o
}

// read from off on with buffers of the given sizes, at most limit bytes (if >= 0).
func read(a *API, o *object, off int, bufs []int, limit int) (got []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	md, err := a.Meta.GetMetadata(o.name, o.bucket, 0, false)
	if err != nil {
		return nil, err
	}
	s, err := a.Service.GetObject(md, md.Versions[0])
	if err != nil {
		return nil, err
	}
	defer func() {
		if e := s.Close(); e != nil {
			err = errors.Join(err, fmt.Errorf("%w: %s", errClose, e))
		}
	}()
	if off > 0 {
		if _, err = s.Seek(int64(off), io.SeekCurrent); err != nil {
			return nil, err
		}
	}
	for i := 0; limit < 0 || len(got) < limit; i++ {
		n := bufs[i%len(bufs)]
		if limit >= 0 && len(got)+n > limit {
			n = limit - len(got)
		}
		buf := make([]byte, n)
		n, err = s.Read(buf)
		got = append(got, buf[:n]...)
		if err == io.EOF {
			return got, nil
		}
		if err != nil {
			return got, err
		}
		if len(got) > 2*len(o.data)+10000 {
			return got, errors.New("endless")
		}
	}
	return got, nil
}

var errClose = errors.New("closing")

// onlyClose says whether nothing failed but the closing (the repair).
func onlyClose(err error) bool { return err == nil || errors.Is(err, errClose) }

// trouble of a shard
const (
	fine = iota
	gone
	down
	denied
	cut
	short
	once
	nTroubles
)

var troubleNames = []string{"fine", "gone", "down", "denied", "cut", "short", "once refused"}

// trouble makes shards unreadable: the returned function decides the requests for them.
func trouble(a *API, o *object, kinds []int, at []int) func(ds *DataServer, op, name string) Fault {
	by := map[string]Fault{}
	first := map[string]*atomic.Bool{}
	for i, k := range kinds {
		n := o.shard(i)
		switch k {
		case gone:
			a.At(o.ver.Locate[i]).Lose(n)
		case down:
			by["head objects "+n] = Fault{Reset: true}
			by["get objects "+n] = Fault{Reset: true}
		case denied:
			by["get objects "+n] = Fault{Status: 500}
		case cut:
			by["get objects "+n] = Fault{Cut: at[i]}
		case short:
			by["get objects "+n] = Fault{Short: at[i]}
		case once:
			by["get objects "+n] = Fault{Status: 503}
			first["get objects "+n] = &atomic.Bool{}
		}
	}
	return func(_ *DataServer, op, name string) Fault {
		if b := first[op+" "+name]; b != nil && b.Swap(true) {
			return Fault{}
		}
		return by[op+" "+name]
	}
}

func genTroubles(t *rapid.T, o *object, max int, kinds []int) (r, at []int, lost int) {
	n := len(o.shards)
	r, at = make([]int, n), make([]int, n)
	want := rapid.IntRange(0, max).Draw(t, "lost")
	if want > n {
		want = n
	}
	size := len(o.shards[0])
	for _, i := range rapid.Permutation(seqOf(n)).Draw(t, "which")[:want] {
		k := rapid.SampledFrom(kinds).Draw(t, "trouble")
		if (k == cut || k == short) && size < 2 {
			k = denied
		}
		if size >= 2 {
			at[i] = rapid.SampledFrom([]int{size / 2, 1, size - 1, 16384}).Draw(t, "at")
			if at[i] >= size {
				at[i] = size - 1
			}
		}
		r[i] = k
		lost++
	}
	return
}

func seqOf(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

func describe(kinds, at []int) string {
	var s []string
	for i, k := range kinds {
		x := troubleNames[k]
		if k == cut || k == short {
			x += fmt.Sprint("@", at[i])
		}
		s = append(s, x)
	}
	return strings.Join(s, " ")
}

func genOffset(t *rapid.T, size, block int) int {
	off := rapid.SampledFrom([]int{0, 0, 1, block, block - 1, size - 1, size / 2, size, 4096}).Draw(t, "off")
	if off > size || off < 0 {
		off = size / 3
	}
	return off
}

func genBufs(t *rapid.T) []int {
	return rapid.SliceOfN(rapid.SampledFrom([]int{32768, 1000, 4096, 100000, 511, 65536}), 1, 3).Draw(t, "bufs")
}

func TestVerif_A01_reads(t *testing.T) {
	a := api()
	vh.Check(t, vh.N(2500, 60000), "an object of a drawn shard configuration and size is stored through the object service; some shards are gone, on servers that are down, refused, break off or end early during the read; it is read "+
		"from an offset with drawn buffer sizes: exact if at most the parity number is affected, also if the repair of lost shards fails, else an error after nothing but right bytes; non-trivial: several blocks or an affected shard", func(t *rapid.T, c *vh.Case) {
		a.Reset()
		p := genRS(t)
		pool.Config.Object.ReedSolomon.RewriteAsync = rapid.Bool().Draw(t, "async")
		o := store(t, a, p)
		kinds, at, lost := genTroubles(t, o, p.ps+1, []int{cut, gone, once, short, down, denied})
		f := trouble(a, o, kinds, at)
		repairFails := rapid.SampledFrom([]string{"", "", "post temp", "patch temp", "put temp"}).Draw(t, "repair fails")
		a.SetFault(func(ds *DataServer, op, name string) Fault {
			if op == repairFails {
				return Fault{Status: 500}
			}
			return f(ds, op, name)
		})
		block, nb := blocks(p.ds, p.ps, p.size)
		off, bufs := genOffset(t, p.size, block), genBufs(t)
		c.Logf("%s; %s; from %d by %v; repair fails at %q", p, describe(kinds, at), off, bufs, repairFails)
		if nb > 1 || lost > 0 {
			c.NonTrivial()
		}
		c.ClassIf(lost > 0 && lost <= p.ps, "tolerated")
		c.ClassIf(lost > p.ps, "too many lost")
		c.ClassIf(nb > 1, "several blocks")
		c.ClassIf(off > 0, "from an offset")
		got, err := read(a, o, off, bufs, -1)
		want := o.data[off:]
		if lost <= p.ps {
			if !onlyClose(err) {
				t.Fatalf("read fails: %s\n%s", err, c.Desc())
			}
			if !bytes.Equal(got, want) {
				t.Fatalf("read %d bytes, want %d, first different at %d\n%s", len(got), len(want), diff(got, want), c.Desc())
			}
		} else {
			if !bytes.HasPrefix(want, got) {
				t.Fatalf("wrong bytes, first different at %d of %d\n%s", diff(got, want), len(want), c.Desc())
			}
			again := 0
			for _, k := range kinds {
				if k == once {
					again++
				}
			}
			// what was refused once may be asked for again
			if err == nil && (lost-again > p.ps || !bytes.Equal(got, want)) {
				t.Fatalf("read ends without an error after %d of %d bytes\n%s", len(got), len(want), c.Desc())
			}
		}
		if !a.Quiet(patience) {
			t.Fatalf("requests to data servers go on after the read\n%s", c.Desc())
		}
	})
}

func diff(a, b []byte) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}

// safe checks what must hold whatever happened: nothing but the right bytes is stored for a shard, and
// the recorded location of a shard is the old one or one that has it.
func safe(a *API, o *object) string {
	for _, d := range a.Servers {
		for n, s := range d.Objects() {
			if !strings.HasPrefix(n, o.ver.Hash+".") {
				// a late repair of an earlier object
				continue
			}
			i := -1
			if _, err := fmt.Sscanf(strings.TrimPrefix(n, o.ver.Hash+"."), "%d", &i); err != nil || i < 0 || i >= len(o.shards) {
				return fmt.Sprintf("unknown object %s on server %d", n, d.Idx)
			}
			if !bytes.Equal(s.Data, o.shards[i]) {
				return fmt.Sprintf("shard %d on server %d has %d bytes that differ at %d from the original %d", i, d.Idx, len(s.Data), diff(s.Data, o.shards[i]), len(o.shards[i]))
			}
			if s.Compress != o.ver.Compress {
				return fmt.Sprintf("shard %d on server %d is stored with compression %t", i, d.Idx, s.Compress)
			}
		}
	}
	vs := a.Meta.Versions(o.bucket, o.name)
	if len(vs) != 1 {
		return fmt.Sprintf("%d versions recorded", len(vs))
	}
	v := vs[0]
	if len(v.Locate) != len(o.ver.Locate) {
		return fmt.Sprintf("%d locations recorded of %d: %v", len(v.Locate), len(o.ver.Locate), v.Locate)
	}
	for i, l := range v.Locate {
		if l == o.ver.Locate[i] {
			continue
		}
		if d := a.At(l); d == nil || d.Object(o.shard(i)) == nil {
			return fmt.Sprintf("location %d is recorded as %s, which does not have it", i, l)
		}
	}
	w := *v
	w.Locate = o.ver.Locate
	if fmt.Sprint(w) != fmt.Sprint(*o.ver) {
		return fmt.Sprintf("the version changed from %+v to %+v", *o.ver, w)
	}
	return ""
}

// restored says which of the shards are not stored and recorded again, or are though they should not.
func restored(a *API, o *object, which []int, want bool) string {
	vs := a.Meta.Versions(o.bucket, o.name)
	for _, i := range which {
		for _, d := range a.Servers {
			if !want && d.Object(o.shard(i)) != nil {
				return fmt.Sprintf("shard %d is stored on server %d", i, d.Idx)
			}
		}
		if want && len(vs) == 1 && len(vs[0].Locate) == len(o.shards) {
			if d := a.At(vs[0].Locate[i]); d == nil || d.Object(o.shard(i)) == nil {
				return fmt.Sprintf("shard %d is not at its recorded location", i)
			}
		}
	}
	if !want {
		for _, c := range a.Meta.Calls() {
			if strings.HasPrefix(c, "update "+o.bucket+" "+o.name+" ") {
				return "locations are recorded: " + c
			}
		}
	}
	return ""
}

// repairCase reads an object of which something was lost; read in a drawn way.
func repairFault(t *rapid.T) (op string, f Fault) {
	op = rapid.SampledFrom([]string{"", "", "patch temp", "put temp", "post temp", "update", "put objects"}).Draw(t, "repair fails")
	f = rapid.SampledFrom([]Fault{{Status: 500}, {Reset: true}, {Status: 500, Late: true}, {Reset: true, Late: true}}).Draw(t, "how")
	return
}

func TestVerif_A02_repair(t *testing.T) {
	a := api()
	vh.Check(t, vh.N(2500, 60000), "an erasure-coded object loses shards and is read fully, from an offset, partly, not at all, or with further shards breaking off, rewriting synchronously or not, the replacement servers or the metadata "+
		"store possibly failing; nothing but exact shards may be stored, every recorded location is the old one or has the shard; after a full read without failures all are restored and recorded, after an incomplete or failed one nothing is; non-trivial: a lost shard", func(t *rapid.T, c *vh.Case) {
		a.Reset()
		p := genRS(t)
		if p.ps == 0 {
			p.ps = 2
		}
		async := rapid.Bool().Draw(t, "async")
		pool.Config.Object.ReedSolomon.RewriteAsync = async
		o := store(t, a, p)
		kinds, at, _ := genTroubles(t, o, p.ps, []int{gone})
		var lost []int
		for i, k := range kinds {
			if k == gone {
				lost = append(lost, i)
			}
		}
		mode := rapid.SampledFrom([]string{"full", "partial", "fails", "offset", "unread"}).Draw(t, "mode")
		block, nb := blocks(p.ds, p.ps, p.size)
		off, limit, bufs := 0, -1, genBufs(t)
		complete := true
		unsure := false
		switch mode {
		case "offset":
			off = genOffset(t, p.size, block)
			// all blocks are read unless the read starts at the end
			unsure = off == p.size
		case "partial":
			limit = rapid.SampledFrom([]int{(nb - 1) * block, 1, block, p.size - 1, (nb-1)*block + 1}).Draw(t, "limit")
			if limit < 0 {
				limit = 0
			}
			complete = false
			unsure = limit > (nb-1)*block
		case "unread":
			limit, complete = 0, false
		case "fails":
			// break off so many that too few are left
			size := len(o.shards[0])
			need := p.ps + 1 - len(lost)
			for i := range kinds {
				if kinds[i] == fine && need > 0 && size > 1 {
					kinds[i], at[i] = rapid.SampledFrom([]int{cut, short}).Draw(t, "break"), rapid.SampledFrom([]int{size - 1, size / 2, 1}).Draw(t, "at")
					need--
				}
			}
			complete = false
			if need > 0 {
				complete, mode = true, "full"
				for i := range kinds {
					if kinds[i] != gone {
						kinds[i] = fine
					}
				}
			}
		}
		op, fault := repairFault(t)
		f := trouble(a, o, kinds, at)
		var mu sync.Mutex
		failed := 0
		a.SetFault(func(ds *DataServer, x, name string) Fault {
			mu.Lock()
			defer mu.Unlock()
			if x == op && failed == 0 {
				failed++
				return fault
			}
			return f(ds, x, name)
		})
		if op == "update" {
			a.Meta.SetFault(func(x string, after bool) error {
				if x == "update" && after == fault.Late {
					failed++
					return errors.New("metadata server fails")
				}
				return nil
			})
		}
		a.Pick.Set(rapid.IntRange(0, 6).Draw(t, "next server"))
		c.Logf("%s; %s; %s from %d, limit %d, by %v; async %t, fails at %q %+v", p, describe(kinds, at), mode, off, limit, bufs, async, op, fault)
		if len(lost) > 0 {
			c.NonTrivial()
			c.Class(mode)
			c.ClassIf(op != "", "failing repair")
		}
		got, err := read(a, o, off, bufs, limit)
		want := o.data[off:]
		if limit >= 0 && len(want) > limit {
			want = want[:limit]
		}
		if mode != "fails" && (!onlyClose(err) || !bytes.Equal(got, want)) {
			t.Fatalf("read %d of %d bytes: %v\n%s", len(got), len(want), err, c.Desc())
		}
		if mode == "fails" && err == nil {
			t.Fatalf("no error\n%s", c.Desc())
		}
		if !a.Quiet(patience) {
			t.Fatalf("requests to data servers go on after the read\n%s", c.Desc())
		}
		if bad := safe(a, o); bad != "" {
			t.Fatalf("%s\n%s", bad, c.Desc())
		}
		mu.Lock()
		anyFailed := failed > 0
		mu.Unlock()
		switch {
		case unsure:
		case complete && !anyFailed:
			if err != nil {
				t.Fatalf("closing fails: %s\n%s", err, c.Desc())
			}
			bad := ""
			if !Eventually(patience, func() bool { bad = restored(a, o, lost, true); return bad == "" }) {
				t.Fatalf("not repaired: %s\n%s", bad, c.Desc())
			}
		case !complete:
			if bad := restored(a, o, lost, false); bad != "" {
				t.Fatalf("repaired after an incomplete read: %s\n%s", bad, c.Desc())
			}
		}
		if bad := safe(a, o); bad != "" {
			t.Fatalf("%s\n%s", bad, c.Desc())
		}
	})
}

func TestVerif_A03_copies(t *testing.T) {
	a := api()
	vh.Check(t, vh.N(2500, 60000), "a replicated object loses copies and is read fully, from an offset, partly or not at all, repairing synchronously or not, the replacement servers or the metadata store possibly failing; exact while a copy is "+
		"left, also when the one being read breaks; copies are looked at in their order: if more than tolerated are found lost before the first one left, a full read restores them all, else nothing is stored; every recorded location is the old one or has the copy; non-trivial: a lost copy", func(t *rapid.T, c *vh.Case) {
		a.Reset()
		p := params{ss: entity.MultiReplication, ds: rapid.SampledFrom([]int{3, 2, 5, 1, 4}).Draw(t, "copies"), compress: rapid.Bool().Draw(t, "compress")}
		p.size = genSize(t, 65536, 1)
		async := rapid.Bool().Draw(t, "async")
		rate := rapid.SampledFrom([]float32{0, 0.34, 0.5, 0.67, 1}).Draw(t, "rate")
		pool.Config.Object.Replication.CopyAsync = async
		pool.Config.Object.Replication.LossToleranceRate = rate
		o := store(t, a, p)
		kinds, at, nlost := genTroubles(t, o, p.ds, []int{gone, down, gone, gone})
		first := 0
		var found []int
		for ; first < len(kinds) && kinds[first] != fine; first++ {
			found = append(found, first)
		}
		tolerated := int(rate * float32(p.ds))
		mode := rapid.SampledFrom([]string{"full", "offset", "partial", "unread", "breaks"}).Draw(t, "mode")
		off, limit, bufs := 0, -1, genBufs(t)
		complete := true
		switch mode {
		case "offset":
			off = rapid.IntRange(1, p.size).Draw(t, "off")
			complete = false
		case "partial":
			limit = rapid.IntRange(0, p.size-1).Draw(t, "limit")
			complete = false
		case "unread":
			limit, complete = 0, false
		case "breaks":
			complete = false
			if first < len(kinds) && p.size > 1 {
				kinds[first], at[first] = rapid.SampledFrom([]int{short, cut, once, denied}).Draw(t, "break"), rapid.IntRange(1, p.size-1).Draw(t, "at")
			} else {
				complete, mode = true, "full"
			}
		}
		op, fault := repairFault(t)
		f := trouble(a, o, kinds, at)
		var mu sync.Mutex
		failed := 0
		a.SetFault(func(ds *DataServer, x, name string) Fault {
			mu.Lock()
			defer mu.Unlock()
			if x == op && failed == 0 {
				failed++
				return fault
			}
			return f(ds, x, name)
		})
		if op == "update" {
			a.Meta.SetFault(func(x string, after bool) error {
				if x == "update" && after == fault.Late {
					mu.Lock()
					defer mu.Unlock()
					failed++
					return errors.New("metadata server fails")
				}
				return nil
			})
		}
		a.Pick.Set(rapid.IntRange(0, 6).Draw(t, "next server"))
		c.Logf("%s; %s, tolerated %d; %s from %d, limit %d, by %v; async %t, fails at %q %+v", p, describe(kinds, at), tolerated, mode, off, limit, bufs, async, op, fault)
		if nlost > 0 {
			c.NonTrivial()
			c.Class(mode)
			c.ClassIf(len(found) > tolerated, "to be repaired")
			c.ClassIf(op != "", "failing repair")
		}
		got, err := read(a, o, off, bufs, limit)
		want := o.data[off:]
		if limit >= 0 && len(want) > limit {
			want = want[:limit]
		}
		switch {
		case first == len(kinds):
			if err == nil {
				t.Fatalf("no error without any copy\n%s", c.Desc())
			}
		case mode == "breaks":
			another := false
			for _, k := range kinds[first+1:] {
				another = another || k == fine
			}
			c.ClassIf(another, "another copy is left")
			if !bytes.HasPrefix(want, got) || (another || err == nil) && (!onlyClose(err) || len(got) < len(want)) {
				t.Fatalf("read %d of %d bytes: %v\n%s", len(got), len(want), err, c.Desc())
			}
		default:
			if !onlyClose(err) || !bytes.Equal(got, want) {
				t.Fatalf("read %d of %d bytes, different at %d: %v\n%s", len(got), len(want), diff(got, want), err, c.Desc())
			}
		}
		if !a.Quiet(patience) {
			t.Fatalf("requests to data servers go on after the read\n%s", c.Desc())
		}
		// gone ones only: a copy on a server that is down is still there
		var lost []int
		for _, i := range found {
			if kinds[i] == gone {
				lost = append(lost, i)
			}
		}
		sort.Ints(lost)
		mu.Lock()
		anyFailed := failed > 0
		mu.Unlock()
		switch {
		case first == len(kinds):
		case mode == "breaks" && len(got) == len(want):
			// goes on with another copy, then the lost ones may be repaired
		case complete && len(found) > tolerated && !anyFailed:
			// an asynchronous repair may still meet the failure
			repairFailed := func() bool {
				mu.Lock()
				defer mu.Unlock()
				return failed > 0
			}
			bad := ""
			ok := Eventually(patience, func() bool {
				bad = restored(a, o, found, true) + safe(a, o)
				return bad == "" || repairFailed()
			})
			if repairFailed() {
				break
			}
			if err != nil {
				t.Fatalf("closing fails: %s\n%s", err, c.Desc())
			}
			if !ok {
				t.Fatalf("not repaired: %s\n%s", bad, c.Desc())
			}
			for _, i := range found {
				if l := a.Meta.Versions(o.bucket, o.name)[0].Locate[i]; kinds[i] == gone && a.At(l).Object(o.shard(i)) == nil {
					t.Fatalf("copy %d is not restored\n%s", i, c.Desc())
				}
			}
		case !complete || len(found) <= tolerated:
			if async {
				time.Sleep(3 * time.Millisecond)
			}
			if bad := restored(a, o, lost, false); bad != "" {
				t.Fatalf("repaired: %s\n%s", bad, c.Desc())
			}
		}
		if !a.Quiet(patience) {
			t.Fatalf("requests go on\n%s", c.Desc())
		}
		if bad := safe(a, o); bad != "" {
			t.Fatalf("%s\n%s", bad, c.Desc())
		}
	})
}
