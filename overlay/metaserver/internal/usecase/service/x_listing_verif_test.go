package service_test

import (
	"common/logs"
	"common/proto/msg"
	"encoding/json"
	"fmt"
	httpctl "metaserver/internal/controller/http"
	"metaserver/internal/usecase/pool"
	"metaserver/internal/usecase/raftimpl"
	. "metaserver/internal/verifenv"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/gin-gonic/gin"
	"pgregory.net/rapid"
	"verifharness/vh"
)

// Listings of one server over HTTP: the first records of a prefix in the order of their keys, and how many there are.
func TestVerif_D01_server_lists(t *testing.T) {
	logs.SetLevel(logs.Error)
	gin.SetMode(gin.ReleaseMode)
	buckets := []string{"b", "b1", "b/1", "ba", "日本", "%", "c"}
	vh.Check(t, vh.N(400, 8000), "a listing by a prefix with more matches than its page", func(t *rapid.T, c *vh.Case) {
		e := New(nil, nil)
		defer e.Close()
		pool.RaftWrapper = raftimpl.NewDisabledRaft()
		h := httpctl.NewHttpServer("0", nil, e.Meta, e.Buckets).Handler
		metas, bkts := map[string]*msg.Metadata{}, map[string]*msg.Bucket{}
		nameGen := rapid.StringMatching(`[a-c0-1/.%+ é]{1,6}`)
		ops := rapid.IntRange(4, 16).Draw(t, "ops")
		for op := 0; op < ops; op++ {
			k := [...]string{"add", "bucket", "add"}[op%3]
			if op > 2 {
				k = rapid.SampledFrom([]string{"list", "list buckets", "list", "add", "list buckets", "remove", "bucket", "remove bucket"}).Draw(t, "op")
			}
			switch k {
			case "add":
				n := rapid.SampledFrom([]int{30, 5, 120, 1}).Draw(t, "n")
				b := rapid.SampledFrom(buckets).Draw(t, "bucket")
				stem := nameGen.Draw(t, "stem")
				for i := 0; i < n; i++ {
					m := &msg.Metadata{Name: fmt.Sprint(stem, i), Bucket: b}
					id := b + "/" + m.Name
					err := e.Meta.AddMetadata(id, m)
					if (err == nil) == (metas[id] != nil) {
						t.Fatalf("adding %s: %v", id, err)
					}
					if err == nil {
						metas[id] = &msg.Metadata{Name: m.Name, Bucket: b}
					}
				}
				c.Logf("add %d %q to %q", n, stem, b)
			case "remove":
				all := vh.Keys(metas)
				if len(all) == 0 {
					continue
				}
				sort.Strings(all)
				at := rapid.IntRange(0, len(all)-1).Draw(t, "at")
				n := rapid.SampledFrom([]int{1, 10, 100}).Draw(t, "n")
				for i := at; i < len(all) && i < at+n; i++ {
					if err := e.Meta.RemoveMetadata(all[i]); err != nil {
						t.Fatalf("removing %s: %v", all[i], err)
					}
					delete(metas, all[i])
				}
				c.Logf("remove %d from %q", n, all[at])
			case "bucket":
				n := rapid.SampledFrom([]int{7, 80, 1}).Draw(t, "n")
				stem := nameGen.Draw(t, "stem")
				for i := 0; i < n; i++ {
					b := &msg.Bucket{Name: fmt.Sprint(stem, i), Versioning: i%2 == 0}
					err := e.Buckets.Create(b)
					if (err == nil) == (bkts[b.Name] != nil) {
						t.Fatalf("creating bucket %s: %v", b.Name, err)
					}
					if err == nil {
						bkts[b.Name] = &msg.Bucket{Name: b.Name, Versioning: i%2 == 0}
					}
				}
				c.Logf("%d buckets %q", n, stem)
			case "remove bucket":
				all := vh.Keys(bkts)
				if len(all) == 0 {
					continue
				}
				sort.Strings(all)
				name := rapid.SampledFrom(all).Draw(t, "name")
				if err := e.Buckets.Remove(name); err != nil {
					t.Fatalf("removing bucket %s: %v", name, err)
				}
				delete(bkts, name)
				c.Logf("remove bucket %q", name)
			default:
				path, all := "/metadata/list", vh.Keys(metas)
				if k == "list buckets" {
					path, all = "/bucket/list", vh.Keys(bkts)
				}
				sort.Strings(all)
				prefix := ""
				switch rapid.IntRange(0, 3).Draw(t, "prefix") {
				case 0:
					if len(all) > 0 {
						s := rapid.SampledFrom(all).Draw(t, "of")
						r := []rune(s)
						prefix = string(r[:rapid.IntRange(0, len(r)).Draw(t, "len")])
					}
				case 1:
					prefix = rapid.SampledFrom(buckets).Draw(t, "bucket") + "/"
				case 2:
					prefix = nameGen.Draw(t, "any")
				}
				size := rapid.SampledFrom([]int{3, 1, 10, 100, 10000}).Draw(t, "size")
				var match []string
				for _, id := range all {
					if strings.HasPrefix(id, prefix) {
						match = append(match, id)
					}
				}
				want := match
				if len(want) > size {
					want = want[:size]
					if prefix != "" {
						c.NonTrivial()
					}
				}
				c.ClassIf(len(match) == 0, "nothing matches")
				c.ClassIf(prefix == "", "everything listed")
				c.ClassIf(len(match) > 100, "more than 100 matches")
				req := httptest.NewRequest(http.MethodGet, path+"?"+url.Values{"prefix": {prefix}, "page_size": {strconv.Itoa(size)}}.Encode(), nil)
				w := httptest.NewRecorder()
				h.ServeHTTP(w, req)
				c.Logf("%s %q %d: %d, total %s", k, prefix, size, w.Code, w.Header().Get("X-Total-Count"))
				total := w.Header().Get("X-Total-Count")
				if total == "" {
					total = "0" // of a server that has nothing
				}
				if w.Code != 200 || total != strconv.Itoa(len(match)) {
					t.Fatalf("%s of %q, at most %d: answered %d with total %q, %d match", k, prefix, size, w.Code, total, len(match))
				}
				var got []string
				if k == "list" {
					var r []*msg.Metadata
					if err := json.Unmarshal(w.Body.Bytes(), &r); err != nil {
						t.Fatalf("%s: %v", w.Body, err)
					}
					for _, m := range r {
						id := m.Bucket + "/" + m.Name
						if metas[id] == nil || m.CreateTime == 0 {
							t.Fatalf("lists %+v", m)
						}
						got = append(got, id)
					}
				} else {
					var r []*msg.Bucket
					if err := json.Unmarshal(w.Body.Bytes(), &r); err != nil {
						t.Fatalf("%s: %v", w.Body, err)
					}
					for _, b := range r {
						if bkts[b.Name] == nil || bkts[b.Name].Versioning != b.Versioning {
							t.Fatalf("lists %+v", b)
						}
						got = append(got, b.Name)
					}
				}
				sort.Strings(got)
				if fmt.Sprint(got) != fmt.Sprint(want) {
					t.Fatalf("%s of %q, at most %d:\n got %q\nwant %q", k, prefix, size, got, want)
				}
			}
		}
	})
}
