package verife2e

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"verifharness/vh"

	"pgregory.net/rapid"
)

const (
	patience = 20 * time.Second
	ecRS     = 1
	copies   = 2
)

type bucket struct {
	Versioning     bool   `json:"versioning"`
	Readonly       bool   `json:"readonly"`
	Compress       bool   `json:"compress"`
	StoreStrategy  int8   `json:"storeStrategy"`
	DataShards     int    `json:"dataShards"`
	ParityShards   int    `json:"parityShards"`
	VersionRemains int    `json:"versionRemains"`
	Name           string `json:"name"`
}

type version struct {
	Compress      bool     `json:"compress"`
	Hash          string   `json:"hash"`
	StoreStrategy int8     `json:"storeStrategy"`
	Sequence      int32    `json:"sequence"`
	Size          int64    `json:"size"`
	DataShards    int      `json:"dataShards"`
	ParityShards  int      `json:"parityShards"`
	Locate        []string `json:"locate"`
}

// tolerated is how many of the shards may be lost.
func (v version) tolerated() int {
	if v.StoreStrategy == copies {
		return v.DataShards - 1
	}
	return v.ParityShards
}

type metadata struct {
	Name         string    `json:"name"`
	Bucket       string    `json:"bucket"`
	Total        int       `json:"total"`
	FirstVersion int       `json:"firstVersion"`
	LastVersion  int       `json:"lastVersion"`
	Versions     []version `json:"versions"`
}

type putResp struct {
	Name    string `json:"name"`
	Bucket  string `json:"bucket"`
	Version int32  `json:"version"`
}

type object struct {
	bucket, name string
	live         map[int32][]byte
	top          int32 // number of the newest version ever
	gone         []int32
}

func (o *object) String() string { return fmt.Sprintf("%q/%q", o.bucket, o.name) }

func (o *object) seqs() (r []int32) {
	for s := range o.live {
		r = append(r, s)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return
}

// world is a cluster and what should be in it.
type world struct {
	t       *rapid.T
	c       *vh.Case
	cl      *Cluster
	buckets map[string]*bucket
	objects map[string]*object
	all     [][]byte
	names   []string
	down    *Proc
	puts    int
	faults  int
	ops     map[string]func() // further operations
}

var (
	e2eCase int
	changed time.Time // last change of the running servers
	cluster *Cluster
)

func start(opt Options) *Cluster {
	if cluster == nil {
		dir, err := os.MkdirTemp("", "e2e")
		must(err)
		cluster = NewCluster(dir, opt)
	}
	return cluster
}

func stop() {
	if cluster != nil {
		dir := cluster.dir
		cluster.Close()
		cluster = nil
		if os.Getenv("VERIF_KEEP") == "" {
			must(os.RemoveAll(dir))
		}
	}
}

func newWorld(t *rapid.T, c *vh.Case, cl *Cluster) *world {
	e2eCase++
	w := &world{t: t, c: c, cl: cl, buckets: map[string]*bucket{}, objects: map[string]*object{}}
	for _, p := range cl.all() {
		if !p.Alive() {
			cl.Start(p)
			changed = time.Now()
		}
	}
	w.names = []string{"x", "y.tar.gz", "x.1", "ü ö", "a+b", "a%b", "q?r=1&s", "100%", "x#1", "./~", "a/b"}
	return w
}

func (w *world) api() *Proc {
	return w.cl.APIs[rapid.IntRange(0, len(w.cl.APIs)-1).Draw(w.t, "api server")]
}

// call until the answer is as it should be: only while servers have just come or gone a worse one may precede it.
func (w *world) call(method, path string, q url.Values, h map[string]string, body []byte, ok func(a Answer) bool) Answer {
	p := w.api()
	for {
		a := w.cl.Call(p, method, path, q, h, body)
		if ok(a) || time.Since(changed) > patience || changed.IsZero() {
			return a
		}
		w.c.Class("retried while servers change")
		time.Sleep(50 * time.Millisecond)
	}
}

func status(codes ...int) func(a Answer) bool {
	return func(a Answer) bool {
		for _, c := range codes {
			if a.Err == nil && a.Status == c {
				return true
			}
		}
		return false
	}
}

func (w *world) genBucket(name string) *bucket {
	t := w.t
	b := &bucket{Name: name}
	b.Versioning = rapid.SampledFrom([]bool{true, true, false}).Draw(t, "versioning")
	b.VersionRemains = rapid.SampledFrom([]int{3, 2, 100, 1, 12}).Draw(t, "remains")
	b.Readonly = rapid.IntRange(0, 7).Draw(t, "readonly") == 7
	b.Compress = rapid.IntRange(0, 2).Draw(t, "compress") == 2
	switch rapid.IntRange(0, 3).Draw(t, "strategy") {
	case 1:
		b.StoreStrategy = ecRS
		b.DataShards, b.ParityShards = rapid.IntRange(1, 4).Draw(t, "data"), rapid.IntRange(0, 2).Draw(t, "parity")
	case 2:
		b.StoreStrategy = copies
		b.DataShards = rapid.IntRange(1, 4).Draw(t, "copies")
	}
	return b
}

func js(v any) []byte {
	bt, err := json.Marshal(v)
	must(err)
	return bt
}

var isJSON = map[string]string{"Content-Type": "application/json"}

func (w *world) createBucket(name string) {
	b := w.genBucket(name)
	a := w.call("POST", "/v1/bucket", nil, isJSON, js(b), status(201))
	w.c.Logf("create bucket %+v: %d", *b, a.Status)
	if a.Status != 201 {
		w.t.Fatalf("creating bucket %q: %v", name, a)
	}
	w.buckets[name] = b
	w.checkBucket(name)
	if rapid.IntRange(0, 3).Draw(w.t, "create again") == 3 {
		a = w.cl.Call(w.api(), "POST", "/v1/bucket", nil, isJSON, js(w.genBucket(name)))
		if a.Err != nil || a.Status < 400 {
			w.t.Fatalf("creating bucket %q twice: %v", name, a)
		}
		w.checkBucket(name)
	}
}

func (w *world) checkBucket(name string) {
	a := w.call("GET", "/v1/bucket/"+url.PathEscape(name), nil, nil, nil, status(200))
	var got bucket
	if a.Status != 200 || json.Unmarshal(a.Body, &got) != nil || got != *w.buckets[name] {
		w.t.Fatalf("bucket %q is %v, expected %+v", name, a, *w.buckets[name])
	}
}

func (w *world) updateBucket() {
	name := w.anyBucket()
	b := w.genBucket(name)
	b.Readonly = rapid.IntRange(0, 3).Draw(w.t, "readonly") == 3
	a := w.call("PUT", "/v1/bucket/"+url.PathEscape(name), nil, isJSON, js(b), status(200))
	w.c.Logf("update bucket %+v: %d", *b, a.Status)
	if a.Status != 200 {
		w.t.Fatalf("updating bucket %q: %v", name, a)
	}
	w.buckets[name] = b
	w.checkBucket(name)
}

func (w *world) anyBucket() string {
	return rapid.SampledFrom(vh.Keys(w.buckets)).Draw(w.t, "bucket")
}

// content not seen before, of some compressible parts.
func content(no, n int) []byte {
	rd := rand.New(rand.NewSource(int64(no)))
	b := make([]byte, n)
	for i := 0; i < n; {
		k := i + 1 + rd.Intn(5000)
		if k > n {
			k = n
		}
		if rd.Intn(3) == 0 {
			rd.Read(b[i:k])
		} else {
			for x := byte(rd.Intn(256)); i < k; i++ {
				b[i] = x
			}
		}
		i = k
	}
	copy(b, fmt.Sprint(no, "."))
	return b
}

var contents int

func (w *world) genContent() []byte {
	if len(w.all) > 0 && rapid.IntRange(0, 3).Draw(w.t, "again") == 3 {
		w.c.Class("known content")
		return w.all[rapid.IntRange(0, len(w.all)-1).Draw(w.t, "content")]
	}
	contents++
	n := rapid.SampledFrom([]int{200000, 65536, 65537, 300, 20480, 20479, 64000, 4096, 10, 1000000, 16384*4 + 1}).Draw(w.t, "size")
	n += rapid.SampledFrom([]int{0, 0, 1, 777}).Draw(w.t, "more")
	b := content(contents+1000*int(vh.Seed()), n)
	w.all = append(w.all, b)
	return b
}

func (w *world) object(b, name string) *object {
	key := b + "/" + name
	o := w.objects[key]
	if o == nil {
		o = &object{bucket: b, name: name, live: map[int32][]byte{}}
		w.objects[key] = o
	}
	return o
}

func (o *object) path() string { return "/v1/objects/" + url.PathEscape(o.name) }

// put, the answer is checked and the model changed.
func (w *world) put() {
	b := w.buckets[w.anyBucket()]
	name := rapid.SampledFrom(w.names[:rapid.IntRange(1, len(w.names)).Draw(w.t, "names")]).Draw(w.t, "name")
	data := w.genContent()
	q := url.Values{}
	if s := rapid.SampledFrom([]int{0, ecRS, copies}).Draw(w.t, "strategy"); s > 0 {
		q.Set("ss", fmt.Sprint(s))
	}
	if rapid.Bool().Draw(w.t, "compress") {
		q.Set("compress", "true")
	}
	o := w.object(b.Name, name)
	h := map[string]string{"bucket": b.Name, "digest": Digest(data)}
	big := rapid.IntRange(0, 3).Draw(w.t, "resumable") == 3
	wrong := rapid.IntRange(0, 9).Draw(w.t, "wrong digest") == 9
	if wrong {
		h["digest"] = Digest(append([]byte("other"), data...))
	}
	var a Answer
	switch {
	case big:
		q.Del("ss")
		a = w.upload(o, q, h, data, !wrong && !b.Readonly)
	case wrong || b.Readonly:
		a = w.cl.Call(w.api(), "PUT", o.path(), q, h, data)
	default:
		a = w.call("PUT", o.path(), q, h, data, status(201))
	}
	w.c.Logf("put %s %d bytes %s big %t wrong %t: %d", o, len(data), q.Encode(), big, wrong, a.Status)
	if wrong || b.Readonly {
		w.c.Class("refused put")
		if a.Err != nil || a.Status < 400 {
			w.t.Fatalf("put %s (readonly %t, wrong digest %t): %v", o, b.Readonly, wrong, a)
		}
		w.check(o)
		return
	}
	w.accept(o, b, data, a)
	w.check(o)
}

// burst adds many versions to an object.
func (w *world) burst() {
	b := w.buckets[w.anyBucket()]
	if b.Readonly {
		return
	}
	o := w.object(b.Name, w.names[0])
	w.c.Class("many versions")
	for i, n := 0, rapid.IntRange(8, 13).Draw(w.t, "versions"); i < n; i++ {
		data := content(e2eCase*1000+w.puts, 20+i)
		a := w.call("PUT", o.path(), nil, map[string]string{"bucket": b.Name, "digest": Digest(data)}, data, status(201))
		w.c.Logf("put %s %d bytes: %d", o, len(data), a.Status)
		w.accept(o, b, data, a)
	}
	w.check(o)
}

func (w *world) accept(o *object, b *bucket, data []byte, a Answer) {
	var resp putResp
	if a.Err != nil || a.Status != 201 && a.Status != 200 || json.Unmarshal(a.Body, &resp) != nil {
		w.t.Fatalf("put %s of %d bytes into %+v: %v", o, len(data), *b, a)
	}
	if resp.Bucket != o.bucket || resp.Version <= o.top {
		w.t.Fatalf("put %s: %v, version %d is the newest so far", o, a, o.top)
	}
	w.puts++
	o.top = resp.Version
	o.live[resp.Version] = data
	remains := 1
	if b.Versioning {
		remains = b.VersionRemains
	}
	for s := o.seqs(); len(s) > remains; s = s[1:] {
		delete(o.live, s[0])
		o.gone = append(o.gone, s[0])
		w.c.Class("old versions removed")
	}
}

// upload resumably.
func (w *world) upload(o *object, q url.Values, h map[string]string, data []byte, succeed bool) Answer {
	w.c.Class("resumable upload")
	h["size"] = fmt.Sprint(len(data))
	fine := func(a Answer) bool { return status(200, 201)(a) || !succeed }
	a := w.call("POST", "/v1/big/"+url.PathEscape(o.name), q, h, nil, fine)
	if a.Err != nil || a.Status != 201 {
		return a
	}
	loc := a.Header.Get("Location")
	for at := 0; ; {
		n := len(data) - at
		if rapid.Bool().Draw(w.t, "part") {
			n = rapid.IntRange(1, n).Draw(w.t, "bytes")
		}
		a = w.cl.Call(w.api(), "PATCH", loc, nil, map[string]string{"Range": fmt.Sprintf("bytes=%d-", at)}, data[at:at+n])
		if a.Status == 206 {
			a.Err = nil // the announced body never comes
		}
		if a.Err != nil || a.Status != 206 || at+n == len(data) {
			return a
		}
		a = w.cl.Call(w.api(), "HEAD", loc, nil, nil, nil)
		var now int
		if _, err := fmt.Sscan(a.Header.Get("Content-Length"), &now); err != nil || a.Status != 200 || now < 0 || now > at+n {
			w.t.Fatalf("uploaded part of %s at %d, %d bytes, progress: %v %v", o, at, n, a, a.Header)
		}
		at = now
	}
}

// check that the versions of o are what they should be, once the old ones are removed.
func (w *world) check(o *object) {
	h := map[string]string{"bucket": o.bucket}
	want := o.seqs()
	var last string
	got := func() (ok bool) {
		a := w.call("GET", "/v1/metadata/"+url.PathEscape(o.name), nil, h, nil, status(200, 404))
		last = a.String()
		if o.top == 0 {
			return a.Status == 404
		}
		var md metadata
		if a.Status != 200 || json.Unmarshal(a.Body, &md) != nil {
			return false
		}
		last = fmt.Sprintf("%+v", md)
		return md.Bucket == o.bucket && md.Total == len(want) && md.FirstVersion == int(want[0]) && md.LastVersion == int(want[len(want)-1]) &&
			len(md.Versions) == 1 && md.Versions[0].Sequence == o.top && md.Versions[0].Size == int64(len(o.live[o.top]))
	}
	if !Eventually(patience, got) {
		w.t.Fatalf("metadata of %s is %s, expected versions %v", o, last, want)
	}
	if o.top == 0 {
		return
	}
	size := rapid.SampledFrom([]int{100, 1, 2, 7, 10}).Draw(w.t, "page size")
	var listed []int32
	for page := 1; ; page++ {
		q := url.Values{"page": {fmt.Sprint(page)}, "page_size": {fmt.Sprint(size)}}
		a := w.call("GET", "/v1/metadata/"+url.PathEscape(o.name)+"/versions", q, h, nil, status(200))
		var vs []version
		if a.Status != 200 || json.Unmarshal(a.Body, &vs) != nil || a.Header.Get("X-Total-Count") != fmt.Sprint(len(want)) || len(vs) > size {
			w.t.Fatalf("page %d of %d versions of %s: %v %v, expected versions %v", page, size, o, a, a.Header, want)
		}
		for _, v := range vs {
			listed = append(listed, v.Sequence)
			if v.Size != int64(len(o.live[v.Sequence])) {
				w.t.Fatalf("page %d of %d versions of %s: %v, expected versions %v", page, size, o, a, want)
			}
		}
		if page*size >= len(want) {
			break
		}
	}
	if fmt.Sprint(listed) != fmt.Sprint(want) {
		w.t.Fatalf("listed versions of %s are %v, expected %v", o, listed, want)
	}
}

// known objects in order.
func (w *world) known() (r []*object) {
	for _, k := range vh.Keys(w.objects) {
		if w.objects[k].top > 0 {
			r = append(r, w.objects[k])
		}
	}
	return
}

// read some version of some object.
func (w *world) read() {
	os := w.known()
	if len(os) == 0 {
		return
	}
	o := os[rapid.IntRange(0, len(os)-1).Draw(w.t, "object")]
	seqs := o.seqs()
	if rapid.Bool().Draw(w.t, "newest") {
		w.get(o, 0)
	} else {
		w.get(o, seqs[rapid.IntRange(0, len(seqs)-1).Draw(w.t, "version")])
	}
}

func (w *world) get(o *object, seq int32) {
	q, h := url.Values{}, map[string]string{"bucket": o.bucket}
	data := o.live[o.top]
	if seq > 0 {
		data = o.live[seq]
		q.Set("version", fmt.Sprint(seq))
	}
	from := 0
	if rapid.IntRange(0, 2).Draw(w.t, "ranged") == 2 {
		from = rapid.IntRange(0, len(data)-1).Draw(w.t, "from")
		h["Range"] = fmt.Sprintf("bytes=%d-", from)
		w.c.Class("read from an offset")
	}
	a := w.call("GET", o.path(), q, h, nil, status(200))
	w.c.Logf("read %s version %d from %d of %d: %d", o, seq, from, len(data), a.Status)
	if a.Status != 200 || a.Err != nil {
		w.t.Fatalf("reading %s version %d from %d of %d: %v\n%s", o, seq, from, len(data), a, w.where(o, seq))
	}
	if !bytes.Equal(a.Body, data[from:]) {
		at := 0
		for at < len(a.Body) && from+at < len(data) && a.Body[at] == data[from+at] {
			at++
		}
		w.t.Fatalf("reading %s version %d from %d of %d returns %d bytes, other ones from there %d on\n%s", o, seq, from, len(data), len(a.Body), at, w.where(o, seq))
	}
}

// missing reads what does not exist.
func (w *world) missing() {
	b := w.anyBucket()
	q, h := url.Values{}, map[string]string{"bucket": b}
	name, what := "never", "object"
	if os := w.known(); len(os) > 0 && rapid.Bool().Draw(w.t, "of an object") {
		o := os[rapid.IntRange(0, len(os)-1).Draw(w.t, "object")]
		name = o.name
		switch rapid.IntRange(0, 2).Draw(w.t, "missing") {
		case 0:
			h["bucket"], what = o.bucket+"x", "bucket"
		case 1:
			h["bucket"], what = o.bucket, "version"
			q.Set("version", fmt.Sprint(o.top+1+int32(rapid.IntRange(0, 20).Draw(w.t, "later"))))
		case 2:
			if len(o.gone) == 0 {
				return
			}
			h["bucket"], what = o.bucket, "removed version"
			q.Set("version", fmt.Sprint(o.gone[rapid.IntRange(0, len(o.gone)-1).Draw(w.t, "gone")]))
		}
	} else if k := w.objects[b+"/x.1.2"]; k == nil {
		name = "x.1.2"
	}
	w.c.Class("missing " + what)
	a := w.call("GET", "/v1/objects/"+url.PathEscape(name), q, h, nil, status(404))
	if a.Status != 404 || a.Err != nil {
		w.t.Fatalf("reading a missing %s %q %v %v: %v", what, name, q, h, a)
	}
	if what == "object" || what == "bucket" {
		a = w.call("GET", "/v1/metadata/"+url.PathEscape(name)+"/versions", url.Values{"page": {"1"}, "page_size": {"10"}}, h, nil, status(404))
		if a.Status != 404 || a.Err != nil {
			w.t.Fatalf("listing the versions of a missing %s %q %v: %v", what, name, h, a)
		}
	}
}

// where the shards of a version are.
func (w *world) where(o *object, seq int32) string {
	v, err := w.version(o, seq)
	if err != nil {
		return err.Error()
	}
	return fmt.Sprintf("recorded as %+v, lost shards %v", v, w.lost(v))
}

func (w *world) version(o *object, seq int32) (v version, err error) {
	q := url.Values{"version": {fmt.Sprint(seq)}}
	a := w.call("GET", "/v1/metadata/"+url.PathEscape(o.name), q, map[string]string{"bucket": o.bucket}, nil, status(200))
	var md metadata
	if a.Status != 200 || json.Unmarshal(a.Body, &md) != nil || len(md.Versions) != 1 {
		return v, fmt.Errorf("metadata of %s version %d: %v", o, seq, a)
	}
	return md.Versions[0], nil
}

func (w *world) lost(v version) (r []int) {
	for i, loc := range v.Locate {
		ok := false
		for _, d := range w.cl.Datas {
			ok = ok || d.Addr == loc && d.Alive() && d.Has(fmt.Sprint(v.Hash, ".", i))
		}
		if !ok {
			r = append(r, i)
		}
	}
	return
}

// survives says whether no version would lose too much if gone(server, file name) were lost.
func (w *world) survives(gone func(d *Proc, name string) bool) bool {
	for _, o := range w.known() {
		for _, seq := range o.seqs() {
			v, err := w.version(o, seq)
			if err != nil {
				w.t.Fatal(err)
			}
			n := 0
			for i, loc := range v.Locate {
				name := fmt.Sprint(v.Hash, ".", i)
				ok := false
				for _, d := range w.cl.Datas {
					ok = ok || d.Addr == loc && d.Alive() && d.Has(name) && !gone(d, name)
				}
				if !ok {
					n++
				}
			}
			if n > v.tolerated() {
				return false
			}
		}
	}
	return true
}

// crash a data server.
func (w *world) crash() {
	if w.down != nil {
		w.c.Logf("start %s", w.down.ID)
		w.cl.Start(w.down)
		changed, w.down = time.Now(), nil
		return
	}
	d := w.cl.Datas[rapid.IntRange(0, len(w.cl.Datas)-1).Draw(w.t, "server")]
	if !w.survives(func(p *Proc, _ string) bool { return p == d }) {
		return
	}
	wipe := rapid.Bool().Draw(w.t, "wipe")
	w.c.Logf("crash %s wipe %t", d.ID, wipe)
	w.c.Class("data server crashed")
	w.faults++
	w.cl.Crash(d)
	changed, w.down = time.Now(), d
	if wipe {
		w.c.Class("data server wiped")
		d.Wipe()
	}
}

// lose files of a server, which is restarted or runs on.
func (w *world) lose() {
	os := w.known()
	if len(os) == 0 {
		return
	}
	o := os[rapid.IntRange(0, len(os)-1).Draw(w.t, "object")]
	seqs := o.seqs()
	v, err := w.version(o, seqs[rapid.IntRange(0, len(seqs)-1).Draw(w.t, "version")])
	if err != nil {
		w.t.Fatal(err)
	}
	if len(v.Locate) == 0 {
		w.t.Fatalf("%s version %d has no locations: %+v", o, v.Sequence, v)
	}
	i := rapid.IntRange(0, len(v.Locate)-1).Draw(w.t, "shard")
	name := fmt.Sprint(v.Hash, ".", i)
	for _, d := range w.cl.Datas {
		if d.Addr != v.Locate[i] || !d.Alive() || !d.Has(name) {
			continue
		}
		if !w.survives(func(p *Proc, n string) bool { return p == d && n == name }) {
			w.c.Class("loss spared")
			return
		}
		w.faults++
		w.c.Class("shard lost")
		restart := rapid.IntRange(0, 3).Draw(w.t, "restart") == 3
		w.c.Logf("lose shard %d of %s version %d, restart %t", i, o, v.Sequence, restart)
		if restart {
			w.cl.Crash(d)
		}
		d.Remove(name)
		if restart {
			w.cl.Start(d)
			changed = time.Now()
		}
	}
}

// restart any server.
func (w *world) restart() {
	all := w.cl.all()
	p := all[rapid.IntRange(0, len(all)-1).Draw(w.t, "server")]
	kill := rapid.Bool().Draw(w.t, "kill")
	w.c.Logf("restart %s %s kill %t", p.Kind, p.ID, kill)
	w.c.Class(p.Kind + " restarted")
	w.faults++
	if kill {
		w.cl.Crash(p)
	} else if err := w.cl.Stop(p); err != nil {
		w.t.Fatal(err)
	}
	w.cl.Start(p)
	changed = time.Now()
}

func (w *world) deleteBucket() {
	for _, name := range vh.Keys(w.buckets) {
		used := false
		for _, o := range w.known() {
			used = used || o.bucket == name
		}
		if used || len(w.buckets) < 2 {
			continue
		}
		a := w.call("DELETE", "/v1/bucket/"+url.PathEscape(name), nil, nil, nil, status(204))
		w.c.Logf("delete bucket %q: %d", name, a.Status)
		w.c.Class("bucket deleted")
		if a.Status != 204 {
			w.t.Fatalf("deleting bucket %q: %v", name, a)
		}
		a = w.call("GET", "/v1/bucket/"+url.PathEscape(name), nil, nil, nil, status(404))
		if a.Status != 404 {
			w.t.Fatalf("deleted bucket %q: %v", name, a)
		}
		data := w.genContent()
		a = w.cl.Call(w.api(), "PUT", "/v1/objects/x", nil, map[string]string{"bucket": name, "digest": Digest(data)}, data)
		if a.Err != nil || a.Status < 400 {
			w.t.Fatalf("put into deleted bucket %q: %v", name, a)
		}
		w.createBucket(name)
		return
	}
}

func (w *world) run(ops []string, n int) {
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("b%d-%s", e2eCase, []string{"plain", "sp ace&+%2F ü"}[i%2])
		if i > 1 {
			break
		}
		w.createBucket(name)
	}
	for i := 0; i < n; i++ {
		switch op := rapid.SampledFrom(ops).Draw(w.t, "op"); op {
		case "put":
			w.put()
		case "burst":
			w.burst()
		case "read":
			w.read()
		case "missing":
			w.missing()
		case "policy":
			w.updateBucket()
		case "delete bucket":
			w.deleteBucket()
		case "crash":
			w.crash()
		case "lose":
			w.lose()
		case "restart":
			w.restart()
		default:
			w.ops[op]()
		}
	}
	// everything at the end
	for _, o := range w.known() {
		w.check(o)
		for _, s := range o.seqs() {
			w.get(o, s)
		}
		w.get(o, 0)
	}
	for _, b := range vh.Keys(w.buckets) {
		w.checkBucket(b)
	}
}

const apiSync = `object:
  checksum: true
  distinct-size: 20KB
  distinct-timeout: 100ms
  reed-solomon: {rewrite-async: false}
  replication: {copy-async: false}
`

// TestVerif_A10_histories are requests to a cluster without faults.
func TestVerif_A10_histories(t *testing.T) {
	cl := start(Options{Metas: 2, Datas: 6, APIs: 2, Disks: 2, API: strings.ReplaceAll(apiSync, "false", "true")})
	defer stop()
	vh.Check(t, vh.N(30, 600), "5-25 requests to a cluster of 2 metadata, 6 data and 2 API servers: uploads (plain, resumable, known contents, wrong digests, all strategies, compressed or not), reads from offsets, of versions, of what is missing, changes of bucket policies; non-trivial: at least 3 accepted uploads", func(t *rapid.T, c *vh.Case) {
		w := newWorld(t, c, cl)
		w.run([]string{"put", "put", "read", "put", "burst", "read", "policy", "missing", "delete bucket"}, rapid.IntRange(5, 25).Draw(t, "ops"))
		if w.puts >= 3 {
			c.NonTrivial()
		}
	})
}

// TestVerif_A10_loss loses servers and stored files.
func TestVerif_A10_loss(t *testing.T) {
	cl := start(Options{Metas: 1, Datas: 7, APIs: 1, Disks: 1, API: apiSync})
	defer stop()
	vh.Check(t, vh.N(20, 300), "8-25 requests to a cluster of 1 metadata, 7 data and 1 API servers, data servers crash, are wiped and come back, files of shards are removed from running and restarted ones, never more than an object tolerates; non-trivial: at least 3 accepted uploads and 2 losses", func(t *rapid.T, c *vh.Case) {
		w := newWorld(t, c, cl)
		w.run([]string{"put", "lose", "read", "lose", "crash", "put", "read", "lose", "read", "policy"}, rapid.IntRange(8, 25).Draw(t, "ops"))
		if w.puts >= 3 && w.faults >= 2 {
			c.NonTrivial()
		}
	})
}

// TestVerif_A10_restarts stops, kills and restarts servers of all kinds.
func TestVerif_A10_restarts(t *testing.T) {
	cl := start(Options{Metas: 3, Datas: 6, APIs: 2, Disks: 2, API: apiSync})
	defer stop()
	vh.Check(t, vh.N(16, 200), "6-20 requests to a cluster of 3 metadata, 6 data and 2 API servers, all of which are killed or stopped and started again; non-trivial: at least 3 accepted uploads and 2 restarts", func(t *rapid.T, c *vh.Case) {
		w := newWorld(t, c, cl)
		w.run([]string{"restart", "put", "read", "put", "read", "policy"}, rapid.IntRange(6, 20).Draw(t, "ops"))
		if w.puts >= 3 && w.faults >= 2 {
			c.NonTrivial()
		}
	})
}

// genName of any characters a path element can have.
func genName(t *rapid.T, label string) string {
	return rapid.OneOf(
		rapid.SampledFrom([]string{"..", ".", "%", "a/b", "a%2Fb", "a,b", "a%2Cb", "a+b", "a b", "%2B"}),
		rapid.StringOfN(rapid.SampledFrom([]rune("ab/%2F+ .?#&=5c\\;:@~")), 1, 8, -1),
		rapid.StringN(1, 12, 60),
	).Filter(func(s string) bool { return strings.ToValidUTF8(s, "") == s }).Draw(t, label)
}

// TestVerif_A10_names stores objects of many names side by side.
func TestVerif_A10_names(t *testing.T) {
	cl := start(Options{Metas: 3, Datas: 3, APIs: 1, Disks: 1, API: apiSync})
	defer stop()
	vh.Check(t, vh.N(60, 1000), "1-2 buckets and 3-10 objects of random names, of all characters, stored in turn, then read, listed; non-trivial: at least 4 different names", func(t *rapid.T, c *vh.Case) {
		w := newWorld(t, c, cl)
		for i := 0; i < rapid.IntRange(1, 2).Draw(t, "buckets"); i++ {
			name := fmt.Sprintf("n%d-", e2eCase) + genName(t, "bucket")
			name = strings.TrimSpace(strings.Map(func(r rune) rune {
				if r < ' ' || r == 0x7f || strings.ContainsRune("/,;", r) { // see below
					return '~'
				}
				return r
			}, name))
			if w.buckets[name] == nil {
				b := &bucket{Name: name, Versioning: true, VersionRemains: 3}
				a := cl.JSON(w.api(), "POST", "/v1/bucket", b)
				if a.Status != 201 {
					t.Fatalf("creating bucket %q: %v", name, a)
				}
				w.buckets[name] = b
			}
		}
		names := map[string]bool{}
		for i := 0; i < rapid.IntRange(3, 10).Draw(t, "objects"); i++ {
			b := w.buckets[w.anyBucket()]
			o := w.object(b.Name, genName(t, "name"))
			c.Logf("%s", o)
			names[o.name] = true
			// some names are taken as they are escaped in the path, which others may be
			if w.aliased(o) != nil {
				c.Class("avoided the same escaped name")
				continue
			}
			c.ClassIf(url.PathEscape(o.name) != o.name, "escaped characters")
			contents++
			data := []byte(fmt.Sprint("content ", contents))
			a := cl.Call(w.api(), "PUT", o.path(), nil, map[string]string{"bucket": o.bucket, "digest": Digest(data)}, data)
			w.accept(o, b, data, a)
		}
		for _, b := range vh.Keys(w.buckets) {
			w.checkBucket(b)
		}
		for _, o := range w.known() {
			w.check(o)
			for _, s := range o.seqs() {
				w.get(o, s)
			}
		}
		if len(names) >= 4 {
			c.NonTrivial()
		}
	})
}

// aliased is a stored object which a server may take for o, because it is told in the path as o is escaped.
func (w *world) aliased(o *object) *object {
	as := func(name string) string {
		if u, err := url.Parse("http://x/" + url.PathEscape(name)); err == nil && u.RawPath == "" {
			return name
		}
		return url.PathEscape(name)
	}
	for _, other := range w.known() {
		if other != o && other.bucket == o.bucket && as(other.name) == as(o.name) {
			return other
		}
	}
	return nil
}

// TestVerif_A10_alias is about the names avoided above.
func TestVerif_A10_alias(t *testing.T) {
	cl := start(Options{Metas: 1, Datas: 3, APIs: 1, Disks: 1, API: apiSync})
	defer stop()
	vh.Check(t, vh.N(5, 50), "two objects, the name of one is that of the other one, which has one of / , ; as it is escaped in a path, and a bucket of such a name; all are non-trivial", func(t *rapid.T, c *vh.Case) {
		w := newWorld(t, c, cl)
		c.NonTrivial()
		b := &bucket{Name: fmt.Sprint("alias", e2eCase), Versioning: true, VersionRemains: 3}
		if a := cl.JSON(w.api(), "POST", "/v1/bucket", b); a.Status != 201 {
			t.Fatalf("creating a bucket: %v", a)
		}
		name := rapid.SampledFrom([]string{"a", "ü", ""}).Draw(t, "before") + rapid.SampledFrom([]string{"/", ",", ";"}).Draw(t, "separator") + rapid.SampledFrom([]string{"", "b", "c d"}).Draw(t, "after")
		c.Logf("%q", name)
		for i, n := range []string{name, url.PathEscape(name)} {
			data := []byte(fmt.Sprint("content of ", i))
			o := &object{name: n}
			if a := cl.Call(w.api(), "PUT", o.path(), nil, map[string]string{"bucket": b.Name, "digest": Digest(data)}, data); a.Status != 201 {
				t.Fatalf("put %q: %v", n, a)
			}
		}
		a := cl.Call(w.api(), "GET", (&object{name: name}).path(), nil, map[string]string{"bucket": b.Name}, nil)
		if a.Status == 200 && string(a.Body) == "content of 1" {
			vh.Finding(t, "A10", "escaped-name", "an object whose name has a slash, comma or semicolon and the one whose name is its escaped form are the same object")
		} else if a.Status != 200 || string(a.Body) != "content of 0" {
			t.Fatalf("reading %q: %v", name, a)
		}
		b2 := &bucket{Name: b.Name + name, Versioning: true, VersionRemains: 3}
		if a := cl.JSON(w.api(), "POST", "/v1/bucket", b2); a.Status != 201 {
			t.Fatalf("creating bucket %q: %v", b2.Name, a)
		}
		a = cl.Call(w.api(), "GET", "/v1/bucket/"+url.PathEscape(b2.Name), nil, nil, nil)
		if a.Status == 404 {
			vh.Finding(t, "A10", "escaped-bucket", "a bucket whose name has a slash, comma or semicolon is created, but not found under its escaped name")
		} else {
			w.buckets[b2.Name] = b2
			w.checkBucket(b2.Name)
		}
	})
}

type request struct {
	get        bool
	o          int
	api        int
	no         int // of the content
	start, end time.Time
	version    int32
	a          Answer
}

// TestVerif_A10_clients work on the same objects at the same time.
func TestVerif_A10_clients(t *testing.T) {
	cl := start(Options{Metas: 2, Datas: 4, APIs: 2, Disks: 1, API: apiSync})
	defer stop()
	vh.Check(t, vh.N(35, 800), "2-5 clients each send 2-8 uploads and reads of 1-3 objects at the same time; versions are unique, reads return the newest content acknowledged before they began or one uploaded later, "+
		"in the end exactly the newest versions are left; non-trivial: uploads of one object overlap", func(t *rapid.T, c *vh.Case) {
		w := newWorld(t, c, cl)
		b := &bucket{Name: fmt.Sprint("c", e2eCase), Versioning: true, VersionRemains: rapid.SampledFrom([]int{2, 100, 1, 5}).Draw(t, "remains")}
		if a := cl.JSON(w.api(), "POST", "/v1/bucket", b); a.Status != 201 {
			t.Fatalf("creating a bucket: %v", a)
		}
		nobj := rapid.IntRange(1, 3).Draw(t, "objects")
		scripts := make([][]*request, rapid.IntRange(2, 5).Draw(t, "clients"))
		datas := map[int][]byte{}
		for i := range scripts {
			for k := rapid.IntRange(2, 8).Draw(t, "requests"); k > 0; k-- {
				r := &request{get: rapid.Bool().Draw(t, "get"), o: rapid.IntRange(0, nobj-1).Draw(t, "object"), api: rapid.IntRange(0, 1).Draw(t, "api server")}
				if !r.get {
					contents++
					r.no = contents
					datas[r.no] = append([]byte(fmt.Sprintf("%d.", contents)), make([]byte, rapid.SampledFrom([]int{300, 0, 70000}).Draw(t, "size"))...)
				}
				scripts[i] = append(scripts[i], r)
			}
			c.Logf("client %d:", i)
			for _, r := range scripts[i] {
				c.Logf("get %t object %d api %d %d bytes", r.get, r.o, r.api, len(datas[r.no]))
			}
		}
		path := func(o int) string { return fmt.Sprint("/v1/objects/o", o) }
		var wg sync.WaitGroup
		for _, s := range scripts {
			wg.Add(1)
			s := s
			go func() {
				defer wg.Done()
				for _, r := range s {
					r.start = time.Now()
					h := map[string]string{"bucket": b.Name}
					if r.get {
						r.a = cl.Call(cl.APIs[r.api], "GET", path(r.o), nil, h, nil)
					} else {
						h["digest"] = Digest(datas[r.no])
						r.a = cl.Call(cl.APIs[r.api], "PUT", path(r.o), nil, h, datas[r.no])
					}
					r.end = time.Now()
				}
			}()
		}
		wg.Wait()
		puts := map[int]*request{}
		var all []*request
		for _, s := range scripts {
			all = append(all, s...)
		}
		for o := 0; o < nobj; o++ {
			ob := w.object(b.Name, fmt.Sprint("o", o))
			versions := map[int32]*request{}
			for _, r := range all {
				if r.o != o || r.get {
					continue
				}
				var resp putResp
				if r.a.Err != nil || r.a.Status != 201 || json.Unmarshal(r.a.Body, &resp) != nil || resp.Version < 1 {
					t.Fatalf("put of object %d: %v", o, r.a)
				}
				r.version = resp.Version
				puts[r.no] = r
				if other := versions[r.version]; other != nil {
					t.Fatalf("object %d: two uploads get version %d", o, r.version)
				}
				versions[r.version] = r
				if r.version > ob.top {
					ob.top = r.version
				}
				ob.live[r.version] = datas[r.no]
				for _, q := range all {
					if q != r && q.o == o && !q.get && q.start.Before(r.end) && r.start.Before(q.end) {
						c.NonTrivial()
					}
				}
			}
			for s := ob.seqs(); len(s) > b.VersionRemains; s = s[1:] {
				delete(ob.live, s[0])
				c.Class("old versions removed")
			}
		}
		for _, r := range all {
			if !r.get {
				continue
			}
			var newest int32
			for _, p := range puts {
				if p.o == r.o && p.end.Before(r.start) && p.version > newest {
					newest = p.version
				}
			}
			if r.a.Err == nil && r.a.Status == 404 && newest == 0 {
				continue
			}
			if r.a.Err != nil || r.a.Status != 200 {
				t.Fatalf("read of object %d, whose newest version was %d: %v", r.o, newest, r.a)
			}
			var no int
			_, _ = fmt.Sscanf(string(r.a.Body), "%d.", &no)
			p := puts[no]
			if p == nil || p.o != r.o || !bytes.Equal(datas[no], r.a.Body) || p.start.After(r.end) {
				t.Fatalf("read of object %d returns another content of %d bytes", r.o, len(r.a.Body))
			}
			if p.version < newest {
				t.Fatalf("read of object %d returns version %d when %d was acknowledged", r.o, p.version, newest)
			}
			c.ClassIf(newest > 0, "read after an upload")
		}
		for _, o := range w.known() {
			w.check(o)
			for _, s := range o.seqs() {
				w.get(o, s)
			}
		}
	})
}
