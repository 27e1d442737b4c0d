package service_test

import (
	"bytes"
	"context"
	"common/logs"
	"common/proto/msg"
	"encoding/json"
	"fmt"
	httpctl "metaserver/internal/controller/http"
	"metaserver/internal/usecase/pool"
	"metaserver/internal/usecase/raftimpl"
	. "metaserver/internal/verifenv"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"common/cst"
	"metaserver/internal/usecase/db"

	"github.com/gin-gonic/gin"
	"pgregory.net/rapid"
	"verifharness/fakeetcd"
	"verifharness/vh"
)

// rest is a metadata server behind its HTTP interface, and what it must contain.
type rest struct {
	t      *rapid.T
	c      *vh.Case
	h      http.Handler
	objs   map[string]*restObj
	bkts   map[string]*msg.Bucket
	other  bool // half of the slots are another server's
	moving bool
	wrote  int
	refuse int
	kinds  map[string]bool
}

type restObj struct {
	meta msg.Metadata
	seq  uint64
	vers map[uint64]*msg.Version
}

func (o *restObj) numbers() (r []uint64) {
	for n := range o.vers {
		r = append(r, n)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return
}

func (r *rest) call(method, path string, q url.Values, body any) *httptest.ResponseRecorder {
	var bt []byte
	switch b := body.(type) {
	case nil:
	case string:
		bt = []byte(b)
	default:
		var err error
		if bt, err = json.Marshal(b); err != nil {
			panic(err)
		}
	}
	if len(q) > 0 {
		path += "?" + q.Encode()
	}
	req := httptest.NewRequest(method, path, bytes.NewReader(bt))
	req.Header.Set("Content-Type", "application/json")
	w := httptest.NewRecorder()
	r.h.ServeHTTP(w, req)
	r.c.Logf("%s %s %s: %d", method, path, bt, w.Code)
	return w
}

// mine tells whether key belongs to this server.
func (r *rest) mine(key string) bool { return !r.other || slotOf(key) < 8192 }

// write sends a request that changes something, it is refused while slots move and for keys of others.
func (r *rest) write(key, method, path string, q url.Values, body any, want int) (*httptest.ResponseRecorder, bool) {
	r.t.Helper()
	w := r.call(method, path, q, body)
	switch {
	case r.moving:
		if w.Code != http.StatusConflict {
			r.t.Fatalf("%s %s while slots move: %d %s", method, path, w.Code, w.Body)
		}
		r.refuse++
		return w, false
	case key != "" && !r.mine(key):
		if loc := "http://127.0.0.1:7/" + strings.TrimPrefix(path, "/"); w.Code != http.StatusBadRequest || w.Header().Get("Location") != loc {
			r.t.Fatalf("%s %s of another server: %d, location %q instead of %q", method, path, w.Code, w.Header().Get("Location"), loc)
		}
		r.c.Class("key of another server")
		r.refuse++
		return w, false
	}
	if w.Code != want {
		r.t.Fatalf("%s %s %v: %d %s instead of %d", method, path, q, w.Code, w.Body, want)
	}
	r.kinds[method+" "+strings.SplitN(path, "/", 3)[1]+" "+fmt.Sprint(want)] = true
	if want >= 400 {
		r.refuse++
		return w, false
	}
	r.wrote++
	return w, true
}

func (r *rest) read(path string, q url.Values, want int, into any) *httptest.ResponseRecorder {
	r.t.Helper()
	w := r.call("GET", path, q, nil)
	if w.Code != want {
		r.t.Fatalf("GET %s %v: %d %s instead of %d", path, q, w.Code, w.Body, want)
	}
	if want == 200 {
		if err := json.Unmarshal(w.Body.Bytes(), into); err != nil {
			r.t.Fatalf("GET %s: %s: %v", path, w.Body, err)
		}
	}
	return w
}

func (r *rest) total(w *httptest.ResponseRecorder, want int) {
	r.t.Helper()
	if n := w.Header().Get("X-Total-Count"); n != strconv.Itoa(want) {
		r.t.Fatalf("a total of %q instead of %d", n, want)
	}
}

func (r *rest) version() *msg.Version {
	v := &msg.Version{
		Compress: rapid.Bool().Draw(r.t, "compress"), StoreStrategy: int8(rapid.IntRange(1, 2).Draw(r.t, "strategy")),
		DataShards: int32(rapid.IntRange(1, 5).Draw(r.t, "data shards")), ParityShards: int32(rapid.IntRange(0, 3).Draw(r.t, "parity shards")),
		ShardSize: int64(rapid.IntRange(1, 1<<40).Draw(r.t, "shard size")), Size: int64(rapid.IntRange(1, 1<<50).Draw(r.t, "size")),
		Hash: rapid.SampledFrom([]string{"h1", "h2", "h%3/+"}).Draw(r.t, "hash"),
		// neither is the client's to say
		Sequence: uint64(rapid.IntRange(0, 9).Draw(r.t, "sequence")), UniqueId: "u",
	}
	for i := rapid.IntRange(1, 3).Draw(r.t, "locations"); i > 0; i-- {
		v.Locate = append(v.Locate, rapid.SampledFrom([]string{"10.0.0.1:1", "10.0.0.2:1", ""}).Draw(r.t, "location"))
	}
	return v
}

// same but for what the server says.
func sameVersion(a, b *msg.Version) bool {
	x, y := *a, *b
	x.Ts, y.Ts, x.UniqueId, y.UniqueId = 0, 0, "", ""
	return reflect.DeepEqual(x, y)
}

func (r *rest) since(what string, at int64, t0 time.Time) {
	if at < t0.UnixMilli() || at > time.Now().UnixMilli() {
		r.t.Fatalf("%s happened at %d, it was %v-%v", what, at, t0.UnixMilli(), time.Now().UnixMilli())
	}
}

// escape also the plus sign, which is a blank to the router when anything is escaped.
func escape(name string) string { return strings.ReplaceAll(url.PathEscape(name), "+", "%2B") }
func vpath(name string) string  { return "/metadata_version/" + escape(name) }
func mpath(name string) string  { return "/metadata/" + escape(name) }
func bpath(name string) string  { return "/bucket/" + escape(name) }

// bad bodies are none of a version, an object and a bucket.
var badBodies = []string{"", "{", "[]", `"x"`, `{"size":"1"}`, `{"name":1}`, "nul", `{"name":"n","bucket":"b"`}

type metaAnswer struct {
	msg.Metadata
	Versions []*msg.Version `json:"versions"`
}

func (r *rest) checkObject(name string) {
	o := r.objs[name]
	n := rapid.SampledFrom([]int{-1, 0, 1, 2, 3, 11}).Draw(r.t, "of version")
	q := url.Values{"version": {fmt.Sprint(n)}}
	extra := rapid.Bool().Draw(r.t, "with extra")
	if extra {
		q.Set("with_extra", "true")
	}
	var m metaAnswer
	if o == nil {
		r.read(mpath(name), q, 404, nil)
		r.read(vpath(name), url.Values{"version": {"0"}}, 404, nil)
		r.read(vpath(name)+"/list", url.Values{"page": {"1"}, "page_size": {"5"}}, 404, nil)
		return
	}
	r.read(mpath(name), q, 200, &m)
	if m.Name != o.meta.Name || m.Bucket != o.meta.Bucket || m.CreateTime != o.meta.CreateTime || m.UpdateTime != o.meta.UpdateTime {
		r.t.Fatalf("%s is %+v, it was %+v", name, m.Metadata, o.meta)
	}
	nums := o.numbers()
	if extra {
		var e msg.Extra
		if len(nums) > 0 {
			e = msg.Extra{Total: len(nums), FirstVersion: int(nums[0]), LastVersion: int(nums[len(nums)-1])}
		}
		if m.Extra == nil || *m.Extra != e {
			r.t.Fatalf("%s has %+v instead of %+v", name, m.Extra, e)
		}
	}
	want := o.vers[uint64(n)]
	if n == 0 && len(nums) > 0 {
		want = o.vers[nums[len(nums)-1]]
	}
	if n < 0 {
		want = nil
	}
	if (want == nil) != (len(m.Versions) == 0) || want != nil && (len(m.Versions) != 1 || !EqVersion(m.Versions[0], want)) {
		r.t.Fatalf("version %d of %s: %s instead of %v", n, name, Vs(m.Versions), want)
	}
	if n >= 0 {
		status := 200
		if want == nil {
			status = 404
		}
		var v msg.Version
		r.read(vpath(name), url.Values{"version": {fmt.Sprint(n)}}, status, &v)
		if want != nil && !EqVersion(&v, want) {
			r.t.Fatalf("version %d of %s: %+v instead of %+v", n, name, v, *want)
		}
	}
	size := rapid.SampledFrom([]int{1, 2, 5, 100}).Draw(r.t, "page size")
	page := rapid.IntRange(1, 4).Draw(r.t, "page")
	var vs []*msg.Version
	if len(nums) == 0 && r.call("GET", vpath(name)+"/list", url.Values{"page": {"1"}, "page_size": {"1"}}, nil).Code == 404 {
		return
	}
	r.total(r.read(vpath(name)+"/list", url.Values{"page": {fmt.Sprint(page)}, "page_size": {fmt.Sprint(size)}}, 200, &vs), len(nums))
	from, to := (page-1)*size, page*size
	if from > len(nums) {
		from = len(nums)
	}
	if to > len(nums) {
		to = len(nums)
	}
	if len(vs) != to-from {
		r.t.Fatalf("page %d of %d: %s of %v", page, size, Vs(vs), nums)
	}
	for i, v := range vs {
		if !EqVersion(v, o.vers[nums[from+i]]) {
			r.t.Fatalf("page %d of %d: %s of %v", page, size, Vs(vs), nums)
		}
	}
}

func (r *rest) checkBucket(name string) {
	b := r.bkts[name]
	var got msg.Bucket
	if b == nil {
		r.read(bpath(name), nil, 404, nil)
		return
	}
	r.read(bpath(name), nil, 200, &got)
	if !EqBucket(&got, b) {
		r.t.Fatalf("bucket %s is %+v, it was %+v", name, got, *b)
	}
}

func (r *rest) checkHash(hash string) {
	var want, got []*msg.Version
	for _, o := range r.objs {
		for _, v := range o.vers {
			if v.Hash == hash {
				want = append(want, v)
			}
		}
	}
	r.read("/version/list", url.Values{"hash": {hash}}, 200, &got)
	if d := EqVersionSet(got, want); d != "" {
		r.t.Fatalf("versions of hash %s: %s", hash, d)
	}
}

func (r *rest) checkLists() {
	prefix := rapid.SampledFrom([]string{"", "b/", "b", "ü", "z"}).Draw(r.t, "prefix")
	size := rapid.IntRange(1, 6).Draw(r.t, "size")
	cut := func(all []string) (res []string, total int) {
		sort.Strings(all)
		for _, n := range all {
			if strings.HasPrefix(n, prefix) {
				res = append(res, n)
			}
		}
		total = len(res)
		if len(res) > size {
			res = res[:size]
		}
		return
	}
	q := url.Values{"prefix": {prefix}, "page_size": {fmt.Sprint(size)}}
	var ms []*msg.Metadata
	w := r.read("/metadata/list", q, 200, &ms)
	want, total := cut(vh.Keys(r.objs))
	var got []string
	for _, m := range ms {
		for n, o := range r.objs {
			if reflect.DeepEqual(o.meta, *m) {
				got = append(got, n)
			}
		}
	}
	// who has no object at all does not say how many there are
	if len(r.objs) > 0 {
		r.total(w, total)
	}
	sort.Strings(got)
	if len(ms) != len(want) || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		r.t.Fatalf("first %d objects of %q: %q (%d) instead of %q", size, prefix, got, len(ms), want)
	}
	var bs []*msg.Bucket
	want, total = cut(vh.Keys(r.bkts))
	w = r.call("GET", "/bucket/list", q, nil)
	if len(r.bkts) == 0 && w.Code == 404 {
		return
	}
	if w.Code != 200 || json.Unmarshal(w.Body.Bytes(), &bs) != nil {
		r.t.Fatalf("buckets: %d %s", w.Code, w.Body)
	}
	r.total(w, total)
	got = nil
	for _, b := range bs {
		got = append(got, b.Name)
	}
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		r.t.Fatalf("first %d buckets of %q: %q instead of %q", size, prefix, got, want)
	}
}

func (r *rest) bucket(name string) *msg.Bucket {
	return &msg.Bucket{
		Name: name, Versioning: rapid.Bool().Draw(r.t, "versioning"), Readonly: rapid.Bool().Draw(r.t, "readonly"), Compress: rapid.Bool().Draw(r.t, "compress"),
		StoreStrategy: int8(rapid.IntRange(0, 2).Draw(r.t, "strategy")), DataShards: int32(rapid.IntRange(0, 4).Draw(r.t, "data")), ParityShards: int32(rapid.IntRange(0, 4).Draw(r.t, "parity")),
		VersionRemains: int32(rapid.IntRange(0, 9).Draw(r.t, "remains")), Policies: rapid.SampledFrom([][]string{nil, {"p"}, {"p", "q"}}).Draw(r.t, "policies"),
	}
}

// TestVerif_M11_http compares a metadata server's HTTP interface with a model.
func TestVerif_M11_http(t *testing.T) {
	logs.SetLevel(logs.Error)
	gin.SetMode(gin.ReleaseMode)
	dir, err := os.MkdirTemp("", "rest")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	st := fakeetcd.New()
	cfg := ServerConfig(dir, "s1", "0", []string{"0-16384"})
	if _, err := st.Put(context.Background(), Group+"/registry/metaserver/s2_master", "127.0.0.1:7"); err != nil {
		t.Fatal(err)
	}
	UsePool(cfg, st, st.Client(), raftimpl.NewDisabledRaft())
	names := []string{"b/x", "b/x.1", "c", "ü/a b", "b%/+", "b"}
	vh.Check(t, vh.N(500, 10000), "15-60 requests to a metadata server over HTTP (objects, versions, relocations, buckets, listings, unreadable ones), with all slots or half of them, some while slots move; non-trivial: at least 8 changes of 5 kinds and 2 refusals", func(t *rapid.T, c *vh.Case) {
		e := New(nil, nil)
		defer e.Close()
		r := &rest{t: t, c: c, h: httpctl.NewHttpServer("0", nil, e.Meta, e.Buckets).Handler, objs: map[string]*restObj{}, bkts: map[string]*msg.Bucket{}, kinds: map[string]bool{}}
		r.other = rapid.IntRange(0, 3).Draw(t, "other server") == 0
		if r.other {
			PutSlots(st, "s1", "s1", []string{"0-8192"})
			PutSlots(st, "s2", "s2", []string{"8192-16384"})
		} else {
			PutSlots(st, "s1", "s1", []string{"0-16384"})
			PutSlots(st, "s2", "s2", nil)
		}
		pool.HashSlot = db.NewHashSlotDB(cst.EtcdPrefix.FmtHashSlot(Group, ""), st)
		n := rapid.IntRange(15, 60).Draw(t, "requests")
		for i := 0; i < n; i++ {
			name := rapid.SampledFrom(names).Draw(t, "name")
			o := r.objs[name]
			have := func(status int) int {
				if o == nil {
					return 404
				}
				return status
			}
			switch op := rapid.SampledFrom([]string{"add version", "add", "update version", "relocate", "remove version", "update", "check", "create bucket", "update bucket", "check", "remove", "remove bucket", "bad", "lists", "move", "hash"}).Draw(t, "op"); op {
			case "add":
				m := &msg.Metadata{Name: fmt.Sprint("x", i), Bucket: "b", CreateTime: 1, UpdateTime: 2}
				want := 201
				if o != nil {
					want = 400
				}
				t0 := time.Now()
				if _, ok := r.write(name, "POST", mpath(name), nil, m, want); ok {
					var got metaAnswer
					r.read(mpath(name), url.Values{"version": {"-1"}}, 200, &got)
					r.since("creation", got.CreateTime, t0)
					m.CreateTime, m.UpdateTime = got.CreateTime, got.CreateTime
					r.objs[name] = &restObj{meta: *m, vers: map[uint64]*msg.Version{}}
				}
			case "update":
				time.Sleep(1100 * time.Microsecond)
				m := &msg.Metadata{Name: fmt.Sprint("y", i), Bucket: "other", CreateTime: 3}
				t0 := time.Now()
				if _, ok := r.write(name, "PUT", mpath(name), nil, m, have(200)); ok {
					var got metaAnswer
					r.read(mpath(name), url.Values{"version": {"-1"}}, 200, &got)
					r.since("update", got.UpdateTime, t0)
					o.meta.Name, o.meta.UpdateTime = m.Name, got.UpdateTime
				}
			case "remove":
				if _, ok := r.write(name, "DELETE", mpath(name), nil, nil, 204); ok {
					delete(r.objs, name)
				}
			case "add version":
				v := r.version()
				t0 := time.Now()
				if w, ok := r.write(name, "POST", vpath(name), nil, v, have(201)); ok {
					o.seq++
					if s := w.Header().Get("Version"); s != fmt.Sprint(o.seq) {
						t.Fatalf("version %q instead of %d", s, o.seq)
					}
					var got msg.Version
					r.read(vpath(name), url.Values{"version": {fmt.Sprint(o.seq)}}, 200, &got)
					r.since("version", got.Ts, t0)
					v.Sequence = o.seq
					if !sameVersion(&got, v) || got.UniqueId == "u" || got.UniqueId == "" {
						t.Fatalf("version %d is %+v, it was %+v", o.seq, got, *v)
					}
					o.vers[o.seq] = &got
				}
			case "update version":
				time.Sleep(1100 * time.Microsecond)
				v := r.version()
				num := uint64(rapid.IntRange(1, 5).Draw(t, "version"))
				want := have(200)
				if o != nil && o.vers[num] == nil {
					want = 404
				}
				t0 := time.Now()
				if _, ok := r.write(name, "PUT", vpath(name), url.Values{"version": {fmt.Sprint(num)}}, v, want); ok {
					var got msg.Version
					r.read(vpath(name), url.Values{"version": {fmt.Sprint(num)}}, 200, &got)
					if got.Ts != o.vers[num].Ts+1 {
						r.since("update", got.Ts, t0)
					}
					old := o.vers[num]
					v.Sequence, v.Hash = num, old.Hash
					if !sameVersion(&got, v) || got.UniqueId != old.UniqueId {
						t.Fatalf("version %d is %+v, it was %+v with %+v", num, got, *old, *v)
					}
					o.vers[num] = &got
				}
			case "remove version":
				num := rapid.SampledFrom([]int{1, 2, 3, 4, -1}).Draw(t, "version")
				want := 204
				switch {
				case o == nil && num < 0, o != nil && num > 0 && o.vers[uint64(num)] == nil:
					want = 404
				}
				if _, ok := r.write(name, "DELETE", vpath(name), url.Values{"version": {fmt.Sprint(num)}}, nil, want); ok && o != nil {
					if num < 0 {
						o.vers = map[uint64]*msg.Version{}
					}
					delete(o.vers, uint64(num))
				}
			case "relocate":
				time.Sleep(1100 * time.Microsecond)
				hash := rapid.SampledFrom([]string{"h1", "h2", "h%3/+", "h4"}).Draw(t, "hash")
				at := rapid.IntRange(0, 2).Draw(t, "index")
				loc := rapid.SampledFrom([]string{"10.0.0.9:1", "10.0.0.8:1"}).Draw(t, "to")
				want := 200
				for _, x := range r.objs {
					for _, v := range x.vers {
						if v.Hash == hash && at >= len(v.Locate) {
							want = 400
						}
					}
				}
				if _, ok := r.write("", "PATCH", "/version/locate", nil, map[string]any{"hash": hash, "locate": loc, "locateIndex": at}, want); ok {
					for xn, x := range r.objs {
						for num, v := range x.vers {
							if v.Hash == hash {
								var got msg.Version
								r.read(vpath(xn), url.Values{"version": {fmt.Sprint(num)}}, 200, &got)
								cp := *v
								cp.Locate = append([]string{}, v.Locate...)
								cp.Locate[at] = loc
								if !sameVersion(&got, &cp) || got.Ts <= v.Ts || got.UniqueId != v.UniqueId {
									t.Fatalf("version %d of %s was %+v, shard %d moved to %s, it is %+v", num, xn, *v, at, loc, got)
								}
								x.vers[num] = &got
							}
						}
					}
				}
			case "create bucket":
				b := r.bucket(name)
				want := 201
				if r.bkts[name] != nil {
					want = 400
				}
				t0 := time.Now()
				path := rapid.SampledFrom([]string{"/bucket", "/bucket/"}).Draw(t, "path")
				if _, ok := r.write(name, "POST", path, nil, b, want); ok {
					var got msg.Bucket
					r.read(bpath(name), nil, 200, &got)
					r.since("creation", got.CreateTime, t0)
					b.CreateTime, b.UpdateTime = got.CreateTime, got.CreateTime
					r.bkts[name] = b
					r.checkBucket(name)
				}
			case "update bucket":
				time.Sleep(1100 * time.Microsecond)
				b := r.bucket("another")
				want := 200
				if r.bkts[name] == nil {
					want = 404
				}
				t0 := time.Now()
				if _, ok := r.write(name, "PUT", bpath(name), nil, b, want); ok {
					var got msg.Bucket
					r.read(bpath(name), nil, 200, &got)
					r.since("update", got.UpdateTime, t0)
					b.Name, b.CreateTime, b.UpdateTime = name, r.bkts[name].CreateTime, got.UpdateTime
					r.bkts[name] = b
					r.checkBucket(name)
				}
			case "remove bucket":
				if _, ok := r.write(name, "DELETE", bpath(name), nil, nil, 204); ok {
					delete(r.bkts, name)
				}
			case "bad":
				body := rapid.SampledFrom(badBodies).Draw(t, "body")
				to := rapid.SampledFrom([][2]string{{"POST", mpath(name)}, {"POST", vpath(name)}, {"PUT", vpath(name) + "?version=1"}, {"POST", "/bucket"}, {"PUT", bpath(name)}, {"PATCH", "/version/locate"}, {"PUT", vpath(name)}, {"DELETE", vpath(name)}}).Draw(t, "to")
				if to[1] == "/version/locate" && rapid.Bool().Draw(t, "index") {
					body = `{"hash":"h1","locate":"10.0.0.7:1","locateIndex":"2"}`
				}
				if to[0] == "PUT" && strings.HasPrefix(to[1], "/bucket") && !json.Valid([]byte(body)) || to[0] != "PUT" || !strings.HasPrefix(to[1], "/bucket") {
					if w := r.call(to[0], to[1], nil, body); w.Code < 400 {
						t.Fatalf("%s %s with %q: %d", to[0], to[1], body, w.Code)
					}
					r.refuse++
					c.Class("unreadable request")
				}
			case "move":
				if r.moving {
					err = pool.HashSlot.FinishMigrateTo()
				} else if rapid.IntRange(0, 2).Draw(t, "moving") > 0 {
					continue
				} else {
					err = pool.HashSlot.ReadyMigrateTo("127.0.0.1:7", []string{"0-1"})
					c.Class("slots move")
				}
				if err != nil {
					t.Fatal(err)
				}
				r.moving = !r.moving
			case "check":
				r.checkObject(name)
				r.checkBucket(name)
			case "lists":
				r.checkLists()
			case "hash":
				r.checkHash(rapid.SampledFrom([]string{"h1", "h2", "h%3/+", "h4"}).Draw(t, "hash"))
			}
		}
		for _, name := range names {
			r.checkObject(name)
			r.checkBucket(name)
		}
		r.checkLists()
		for _, h := range []string{"h1", "h2", "h%3/+"} {
			r.checkHash(h)
		}
		if r.wrote >= 8 && len(r.kinds) >= 5 && r.refuse >= 2 {
			c.NonTrivial()
		}
	})
}
