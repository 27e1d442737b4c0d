package verifenv

import (
	"apiserver/internal/entity"
	"apiserver/internal/usecase/pool"
	"bytes"
	"encoding/json"
	"fmt"
	"net/url"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"verifharness/vh"

	"pgregory.net/rapid"
)

// uploaded is a version a client has uploaded.
type uploaded struct {
	data []byte
	want entity.Version // size, strategy, shards and compression
}

type policyRun struct {
	t       *rapid.T
	c       *vh.Case
	a       *API
	w       *Web
	buckets map[string]entity.Bucket
	// objects by bucket/name: versions by sequence
	objects map[string]map[int32]*uploaded
	all     [][]byte
	ups     int
}

type putting struct {
	bucket, name  string
	data          []byte
	strategy      entity.ObjectStrategy
	compress, big bool
}

func (p putting) String() string {
	return fmt.Sprintf("%s/%s %d bytes, strategy %d, compress %t, big %t", p.bucket, p.name, len(p.data), p.strategy, p.compress, p.big)
}

func (r *policyRun) genPut() (p putting) {
	t := r.t
	p.bucket = rapid.SampledFrom([]string{"a", "b"}).Draw(t, "bucket")
	p.name = rapid.SampledFrom([]string{"x", "y.tar.gz", "z"}).Draw(t, "name")
	p.big = rapid.IntRange(0, 3).Draw(t, "big") == 0
	p.strategy = rapid.SampledFrom([]entity.ObjectStrategy{0, entity.ECReedSolomon, entity.MultiReplication}).Draw(t, "strategy")
	p.compress = rapid.Bool().Draw(t, "compress")
	if len(r.all) > 0 && rapid.IntRange(0, 3).Draw(t, "again") == 0 {
		p.data = r.all[rapid.IntRange(0, len(r.all)-1).Draw(t, "content")]
		r.c.Class("known content")
		return
	}
	caseNo++
	n := rapid.SampledFrom([]int{65536, 65537, 100, 30000, 200000, 65535, 17}).Draw(t, "size")
	p.data = Content(caseNo, n)
	r.all = append(r.all, p.data)
	return
}

// want of an upload under the policy of its bucket.
func (r *policyRun) want(p putting) (v entity.Version) {
	b := r.buckets[p.bucket]
	cfg := pool.Config.Object
	v.Size = int64(len(p.data))
	v.Compress = p.compress || b.Compress
	v.StoreStrategy = p.strategy
	if p.strategy == 0 {
		if v.StoreStrategy = entity.MultiReplication; v.Size > 65536 {
			v.StoreStrategy = entity.ECReedSolomon
		}
	}
	v.DataShards, v.ParityShards = cfg.ReedSolomon.DataShards, cfg.ReedSolomon.ParityShards
	copies := cfg.Replication.CopiesCount
	if b.StoreStrategy > 0 {
		v.StoreStrategy = b.StoreStrategy
		copies = b.DataShards
		if b.StoreStrategy == entity.ECReedSolomon {
			v.DataShards, v.ParityShards = b.DataShards, b.ParityShards
		}
	}
	if p.big {
		v.StoreStrategy = entity.ECReedSolomon
	}
	if v.StoreStrategy == entity.MultiReplication {
		v.DataShards, v.ParityShards = copies, 0
	}
	return
}

func (r *policyRun) remains(bucket string) int {
	b := r.buckets[bucket]
	if !b.Versioning || b.VersionRemains < 1 {
		return 1
	}
	return b.VersionRemains
}

// upload returns the last answer.
func (r *policyRun) upload(p putting) (Answer, error) {
	q := url.Values{}
	if p.strategy > 0 && !p.big {
		q.Set("ss", fmt.Sprint(int(p.strategy)))
	}
	if p.compress {
		q.Set("compress", "true")
	}
	h := map[string]string{"bucket": p.bucket, "digest": Digest(p.data)}
	if !p.big {
		return r.w.Call("PUT", "/v1/objects/"+p.name, q, h, bytes.NewReader(p.data), int64(len(p.data)))
	}
	h["size"] = fmt.Sprint(len(p.data))
	ans, err := r.w.Call("POST", "/v1/big/"+p.name, q, h, nil, 0)
	if err != nil || ans.Status != 201 {
		return ans, err
	}
	return r.w.Call("PATCH", ans.Header.Get("Location"), nil, map[string]string{"Range": "bytes=0-"}, bytes.NewReader(p.data), int64(len(p.data)))
}

func (r *policyRun) accept(p putting, ans Answer, err error) {
	if err != nil || ans.Status != 200 && ans.Status != 201 {
		r.t.Fatalf("upload %s: %v %v", p, ans, err)
	}
	var resp entity.PutResp
	if err = json.Unmarshal(ans.Body, &resp); err != nil || resp.Name != p.name || resp.Bucket != p.bucket {
		r.t.Fatalf("upload %s: %v", p, ans)
	}
	key := id(p.bucket, p.name)
	vs := r.objects[key]
	if vs == nil {
		vs = map[int32]*uploaded{}
		r.objects[key] = vs
	}
	if vs[resp.Version] != nil {
		r.t.Fatalf("upload %s: version %d has been there before", p, resp.Version)
	}
	vs[resp.Version] = &uploaded{p.data, r.want(p)}
	r.ups++
}

func sequences(vs map[int32]*uploaded) (r []int32) {
	for s := range vs {
		r = append(r, s)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return
}

func (r *policyRun) trim(key string) {
	bucket, _, _ := strings.Cut(key, "/")
	vs := r.objects[key]
	seqs := sequences(vs)
	for n := r.remains(bucket); len(seqs) > n; seqs = seqs[1:] {
		delete(vs, seqs[0])
		r.c.Class("versions removed")
	}
}

// check that exactly the expected versions are left, as they should be.
func (r *policyRun) check() {
	recorded := func() map[string][]int32 {
		m := map[string][]int32{}
		for key := range r.a.Meta.All() {
			bucket, name, _ := strings.Cut(key, "/")
			for _, v := range r.a.Meta.Versions(bucket, name) {
				m[key] = append(m[key], v.Sequence)
			}
		}
		return m
	}
	want := map[string][]int32{}
	for key, vs := range r.objects {
		want[key] = sequences(vs)
	}
	// old versions are removed asynchronously
	if !Eventually(patience, func() bool { return fmt.Sprint(recorded()) == fmt.Sprint(want) }) {
		r.t.Fatalf("versions are %v, expected %v", recorded(), want)
	}
	for key, vs := range r.objects {
		bucket, name, _ := strings.Cut(key, "/")
		for _, v := range r.a.Meta.Versions(bucket, name) {
			w := vs[v.Sequence].want
			if v.Size != w.Size || v.Compress != w.Compress || v.StoreStrategy != w.StoreStrategy || v.DataShards != w.DataShards || v.ParityShards != w.ParityShards || len(v.Locate) != w.DataShards+w.ParityShards {
				r.t.Fatalf("%s version %d is recorded as %+v, expected %+v", key, v.Sequence, v, w)
			}
			if err := shardsOf(r.a, v); err != nil {
				r.t.Fatalf("%s version %d (%+v): %s", key, v.Sequence, v, err)
			}
			for i, loc := range v.Locate {
				if d := r.a.At(loc); d == nil {
					r.t.Fatalf("%s version %d: shard %d is at %q", key, v.Sequence, i, loc)
				} else if o := d.Object(fmt.Sprint(v.Hash, ".", i)); o == nil || o.Compress != v.Compress {
					r.t.Fatalf("%s version %d (%+v): shard %d is stored as %v", key, v.Sequence, w, i, o)
				}
			}
		}
	}
}

func (r *policyRun) read() {
	keys := make([]string, 0, len(r.objects))
	for k := range r.objects {
		keys = append(keys, k)
	}
	if len(keys) == 0 {
		return
	}
	sort.Strings(keys)
	key := rapid.SampledFrom(keys).Draw(r.t, "object")
	seqs := sequences(r.objects[key])
	bucket, name, _ := strings.Cut(key, "/")
	q, seq := url.Values{}, seqs[len(seqs)-1]
	if rapid.Bool().Draw(r.t, "versioned") {
		seq = rapid.SampledFrom(seqs).Draw(r.t, "version")
		q.Set("version", fmt.Sprint(seq))
	}
	ans, err := r.w.Call("GET", "/v1/objects/"+name, q, map[string]string{"bucket": bucket}, nil, 0)
	r.c.Logf("read %s version %d: %v %v", key, seq, ans.Status, err)
	if err != nil || ans.Status != 200 || ans.Err != nil {
		r.t.Fatalf("reading %s version %d: %v %v", key, seq, ans, err)
	}
	if u := r.objects[key][seq]; !bytes.Equal(ans.Body, u.data) {
		r.t.Fatalf("reading %s version %d (%+v) returns other %d bytes", key, seq, u.want, len(ans.Body))
	}
}

func (r *policyRun) setBucket(name string) {
	t := r.t
	b := entity.Bucket{Name: name}
	b.Versioning = rapid.SampledFrom([]bool{true, true, false}).Draw(t, "versioning")
	b.VersionRemains = rapid.SampledFrom([]int{2, 3, 1, 5, 0, 100}).Draw(t, "remains")
	b.Readonly = rapid.IntRange(0, 4).Draw(t, "readonly") == 0
	b.Compress = rapid.IntRange(0, 2).Draw(t, "compress") == 0
	switch rapid.IntRange(0, 2).Draw(t, "strategy") {
	case 1:
		b.StoreStrategy = entity.ECReedSolomon
		b.DataShards, b.ParityShards = rapid.IntRange(1, 5).Draw(t, "data"), rapid.IntRange(0, 3).Draw(t, "parity")
		if old := r.buckets[name]; old.StoreStrategy == entity.ECReedSolomon && old.ParityShards > 0 && rapid.Bool().Draw(t, "as many shards") {
			// as many shards of a different layout
			b.DataShards, b.ParityShards = old.DataShards+1, old.ParityShards-1
		}
	case 2:
		b.StoreStrategy = entity.MultiReplication
		b.DataShards, b.ParityShards = rapid.IntRange(1, 4).Draw(t, "copies"), rapid.IntRange(0, 2).Draw(t, "unused")
	}
	r.buckets[name] = b
	r.a.Meta.SetBucket(b)
	r.c.Logf("bucket %+v", b)
}

func (r *policyRun) state() string {
	return fmt.Sprint(vh.Keys(r.a.Objects()), r.a.Meta.All())
}

func startPolicy(t *rapid.T, c *vh.Case) *policyRun {
	w := web()
	a := w.api
	a.Reset()
	cfg := &pool.Config.Object
	cfg.DistinctTimeout = time.Millisecond
	cfg.Checksum = rapid.Bool().Draw(t, "checksum")
	if rapid.Bool().Draw(t, "distinct") {
		cfg.DistinctSize = 0
		cfg.DistinctTimeout = 30 * time.Millisecond
	}
	cfg.Replication.CopiesCount = rapid.IntRange(1, 4).Draw(t, "copies")
	cfg.ReedSolomon.DataShards = rapid.IntRange(1, 4).Draw(t, "data")
	cfg.ReedSolomon.ParityShards = rapid.IntRange(0, 3).Draw(t, "parity")
	w.Reset()
	r := &policyRun{t, c, a, w, map[string]entity.Bucket{}, map[string]map[int32]*uploaded{}, nil, 0}
	r.setBucket("a")
	r.setBucket("b")
	return r
}

func (r *policyRun) put(p putting) {
	before := r.state()
	ans, err := r.upload(p)
	r.w.Quiet(patience)
	r.c.Logf("upload %s: %v %v", p, ans, err)
	if r.buckets[p.bucket].Readonly {
		r.c.Class("readonly")
		if err != nil || ans.Status < 400 {
			r.t.Fatalf("upload to a read-only bucket: %v %v", ans, err)
		}
		if after := r.state(); after != before {
			r.t.Fatalf("upload to a read-only bucket stores something: %s, before %s", after, before)
		}
		return
	}
	r.accept(p, ans, err)
	r.trim(id(p.bucket, p.name))
}

// TestVerif_A05_history uploads to buckets of changing policies.
func TestVerif_A05_history(t *testing.T) {
	vh.Check(t, vh.N(400, 4000), "at least 3 accepted uploads", func(t *rapid.T, c *vh.Case) {
		r := startPolicy(t, c)
		n := rapid.IntRange(4, 14).Draw(t, "ops")
		for i := 0; i < n; i++ {
			switch rapid.SampledFrom([]string{"put", "put", "together", "read", "policy", "readonly midway", "invalid", "put"}).Draw(t, "op") {
			case "put":
				r.put(r.genPut())
			case "policy":
				r.setBucket(rapid.SampledFrom([]string{"a", "b"}).Draw(t, "bucket"))
			case "read":
				r.read()
			case "together":
				r.together()
			case "readonly midway":
				r.midway()
			case "invalid":
				r.invalid()
			}
			r.check()
		}
		for i := 0; i < 3; i++ {
			r.read()
		}
		r.check()
		if r.ups >= 3 {
			c.NonTrivial()
		}
	})
}

// together uploads several versions of an object at the same time.
func (r *policyRun) together() {
	p := r.genPut()
	if r.buckets[p.bucket].Readonly {
		r.put(p)
		return
	}
	r.c.Class("at the same time")
	ps := []putting{p}
	for n := rapid.IntRange(1, 3).Draw(r.t, "more"); n > 0; n-- {
		q := r.genPut()
		q.bucket, q.name = p.bucket, p.name
		ps = append(ps, q)
	}
	type result struct {
		ans Answer
		err error
	}
	rs := make([]result, len(ps))
	var wg sync.WaitGroup
	for i := range ps {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			rs[i].ans, rs[i].err = r.upload(ps[i])
		}()
	}
	wg.Wait()
	r.w.Quiet(patience)
	for i, p := range ps {
		r.c.Logf("upload %s at the same time: %v %v", p, rs[i].ans, rs[i].err)
		r.accept(p, rs[i].ans, rs[i].err)
	}
	r.trim(id(p.bucket, p.name))
}

// midway makes a bucket read-only between the first and the last request of an upload.
func (r *policyRun) midway() {
	p := r.genPut()
	b := r.buckets[p.bucket]
	if b.Readonly {
		return
	}
	h := map[string]string{"bucket": p.bucket, "digest": Digest(p.data), "size": fmt.Sprint(len(p.data))}
	p.big = true
	p.compress = false
	ans, err := r.w.Call("POST", "/v1/big/"+p.name, nil, h, nil, 0)
	if err == nil && ans.Status == 200 {
		r.accept(p, ans, err)
		r.trim(id(p.bucket, p.name))
		return
	}
	if err != nil || ans.Status != 201 {
		r.t.Fatalf("POST %s: %v %v", p, ans, err)
	}
	b.Readonly = true
	r.a.Meta.SetBucket(b)
	before := r.state()
	ans, err = r.w.Call("PATCH", ans.Header.Get("Location"), nil, map[string]string{"Range": "bytes=0-"}, bytes.NewReader(p.data), int64(len(p.data)))
	r.w.Quiet(patience)
	r.c.Logf("upload %s, read-only midway: %v %v", p, ans, err)
	r.c.Class("read-only midway")
	if err != nil || ans.Status < 400 {
		r.t.Fatalf("upload to a bucket read-only by now: %v %v", ans, err)
	}
	if after := r.state(); after != before {
		r.t.Fatalf("upload to a bucket read-only by now stores something: %s, before %s", after, before)
	}
	b.Readonly = false
	r.a.Meta.SetBucket(b)
}

// invalid uploads must be refused and store nothing.
func (r *policyRun) invalid() {
	before := r.state()
	data := Content(7, 100)
	method, path := "PUT", "/v1/objects/x"
	q := url.Values{}
	h := map[string]string{"bucket": "a", "digest": Digest(data)}
	length := int64(len(data))
	kind := rapid.SampledFrom([]string{"no bucket", "unknown bucket", "no digest", "empty", "unknown length", "big without size", "big of negative size", "strategy"}).Draw(r.t, "kind")
	switch kind {
	case "no bucket":
		delete(h, "bucket")
	case "unknown bucket":
		h["bucket"] = "other"
	case "no digest":
		delete(h, "digest")
	case "empty":
		data, length = nil, 0
	case "unknown length":
		length = -1
	case "big without size":
		method, path, data, length = "POST", "/v1/big/x", nil, 0
	case "big of negative size":
		method, path, data, length = "POST", "/v1/big/x", nil, 0
		h["size"] = "-100"
	case "strategy":
		q.Set("ss", "many")
	}
	ans, err := r.w.Call(method, path, q, h, bytes.NewReader(data), length)
	r.w.Quiet(patience)
	r.c.Class("invalid")
	r.c.Logf("upload with %s: %v %v", kind, ans, err)
	if err != nil || ans.Status < 400 {
		r.t.Fatalf("upload with %s: %v %v", kind, ans, err)
	}
	if after := r.state(); after != before {
		r.t.Fatalf("upload with %s stores something: %s, before %s", kind, after, before)
	}
}
