package verifenv

import (
	"common/proto/msg"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verifharness/vh"
)

var auth = map[string]string{"Authorization": "Basic dTpw"}

// Pages of objects and buckets over all metadata servers.
func TestVerif_D01_pages(t *testing.T) {
	vh.Check(t, vh.N(400, 12000), "a page of more than one server's records", func(t *rapid.T, c *vh.Case) {
		a := New()
		defer a.Close()
		api := NewAPI()
		defer api.Close()
		a.Register(APIName, "api", "", api.Addr())
		buckets := []string{"b", "a", "b1", "ba", "日本", "b-", "B", "b&a=1", "a+b"}
		all, owner := map[string]int{}, map[string]bool{}
		allB := map[string]int{}
		n := rapid.IntRange(1, 4).Draw(t, "masters")
		var masters []*Meta
		for i := 0; i < n; i++ {
			m := NewMeta()
			defer m.Close()
			masters = append(masters, m)
			role := rapid.SampledFrom([]string{"", "_master"}).Draw(t, "role")
			a.Register(MetaName, fmt.Sprint("m", i), role, m.Addr())
		}
		count := rapid.SampledFrom([]int{20, 5, 60, 0, 200}).Draw(t, "count")
		stem := rapid.StringMatching(`[a-c./ é0-9&+%=#?-]{0,3}`).Draw(t, "stem")
		seed := rapid.IntRange(0, 1000).Draw(t, "spread")
		for i := 0; i < count; i++ {
			b := buckets[(i*3+i/9+seed)%len(buckets)]
			name := fmt.Sprint(stem, (i*31+seed)%97, strings.Repeat("x", i%3))
			key := b + "/" + name
			at := (i*i + seed*i/3) % n
			if owner[key] {
				continue
			}
			owner[key] = true
			all[key] = at
			masters[at].Metas[key] = &msg.Metadata{Name: name, Bucket: b, CreateTime: int64((i * 37) % 11), UpdateTime: int64(i)}
		}
		for i := 0; i < count/3; i++ {
			name := fmt.Sprint(stem, (i*17+seed)%53)
			if _, ok := allB[name]; ok {
				continue
			}
			at := (i + seed/7) % n
			allB[name] = at
			masters[at].Buckets[name] = &msg.Bucket{Name: name, VersionRemains: int32(i)}
		}
		// the records of followers are those of their leaders
		for i := rapid.IntRange(0, 2).Draw(t, "slaves"); i > 0; i-- {
			s := NewMeta()
			defer s.Close()
			of := masters[i%n]
			s.Metas, s.Buckets = of.Metas, of.Buckets
			a.Register(MetaName, fmt.Sprint("s", i), "_slave", s.Addr())
			c.Class("followers")
		}
		a.Settle()
		c.Logf("%d masters, %d objects, %d buckets, stem %q", n, len(all), len(allB), stem)
		for q := rapid.IntRange(4, 16).Draw(t, "queries"); q > 0; q-- {
			page := rapid.SampledFrom([]int{1, 2, 3, 2, 7, 1000}).Draw(t, "page")
			size := rapid.SampledFrom([]int{5, 1, 10, 50, 10000}).Draw(t, "size")
			if page*size > 10000 {
				size = 10000 / page
			}
			v := url.Values{"page": {strconv.Itoa(page)}, "pageSize": {strconv.Itoa(size)}}
			var prefix string
			path, from := "/api/metadata/page", all
			if rapid.IntRange(0, 2).Draw(t, "what") == 2 {
				path, from = "/api/metadata/buckets", allB
				prefix = rapid.SampledFrom([]string{"", stem, stem + "1", "zz"}).Draw(t, "prefix")
				v.Set("name", prefix)
			} else {
				b := rapid.SampledFrom([]string{"", "b", "", "a", "日本", "b&a=1", "a+b", "none"}).Draw(t, "bucket")
				name := rapid.SampledFrom([]string{"", stem, "", stem + "1", "b", "zz"}).Draw(t, "name")
				v.Set("bucket", b)
				v.Set("name", name)
				prefix = name
				if b != "" {
					prefix = b + "/" + name
				}
			}
			var match []string
			for k := range from {
				if strings.HasPrefix(k, prefix) {
					match = append(match, k)
				}
			}
			sort.Strings(match)
			var want []string
			if st := (page - 1) * size; st < len(match) {
				want = match[st:]
				if len(want) > size {
					want = want[:size]
				}
			}
			broken := -1
			if rapid.IntRange(0, 5).Draw(t, "fail") == 5 {
				broken = rapid.IntRange(0, n-1).Draw(t, "who")
				how := rapid.SampledFrom([]string{"500", "cut", "garbage", "dies"}).Draw(t, "how")
				c.Class("failing server")
				masters[broken].Fail = func(w http.ResponseWriter, r *http.Request) bool {
					switch how {
					case "500":
						w.WriteHeader(500)
					case "garbage":
						w.Header().Set("X-Total-Count", "3")
						_, _ = io.WriteString(w, "[{")
					case "cut":
						w.Header().Set("X-Total-Count", "3")
						w.Header().Set("Content-Length", "100")
						_, _ = io.WriteString(w, "[")
						panic(http.ErrAbortHandler)
					case "dies":
						panic(http.ErrAbortHandler)
					}
					return true
				}
			}
			r := a.Do(nil, http.MethodGet, path, v, auth, nil)
			if broken >= 0 {
				masters[broken].Fail = nil
				if r.Err == nil && r.Code < 400 {
					t.Fatalf("%s?%s: answered %v although a server failed", path, v.Encode(), r)
				}
				continue
			}
			if r.Err != nil || r.Code != 200 {
				t.Fatalf("%s?%s: answered %v", path, v.Encode(), r)
			}
			if got := r.Header.Get("X-Total-Count"); got != strconv.Itoa(len(match)) {
				t.Fatalf("%s?%s: total %q, there are %d", path, v.Encode(), got, len(match))
			}
			var got []string
			if path == "/api/metadata/page" {
				var lst []*msg.Metadata
				if err := json.Unmarshal(r.Body, &lst); err != nil || lst == nil {
					t.Fatalf("%s?%s: %v: %s", path, v.Encode(), err, r.Body)
				}
				for _, m := range lst {
					k := m.Bucket + "/" + m.Name
					got = append(got, k)
					if at, ok := all[k]; ok {
						if w := masters[at].Metas[k]; w.CreateTime != m.CreateTime || w.UpdateTime != m.UpdateTime {
							t.Fatalf("lists %+v, stored %+v", m, w)
						}
					}
				}
			} else {
				var lst []*msg.Bucket
				if err := json.Unmarshal(r.Body, &lst); err != nil || lst == nil {
					t.Fatalf("%s?%s: %v: %s", path, v.Encode(), err, r.Body)
				}
				for _, b := range lst {
					got = append(got, b.Name)
					if at, ok := allB[b.Name]; ok && masters[at].Buckets[b.Name].VersionRemains != b.VersionRemains {
						t.Fatalf("lists %+v", b)
					}
				}
			}
			c.Logf("%s?%s: %d of %d", path, v.Encode(), len(got), len(match))
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
				t.Fatalf("%s?%s:\n got %q\nwant %q", path, v.Encode(), got, want)
			}
			at := map[int]bool{}
			for _, k := range want {
				at[from[k]] = true
			}
			if len(at) > 1 {
				c.NonTrivial()
			}
			c.ClassIf(len(want) == 0 && len(match) > 0, "beyond the last page")
			c.ClassIf(page > 1 && len(want) > 0, "a later page")
		}
	})
}
