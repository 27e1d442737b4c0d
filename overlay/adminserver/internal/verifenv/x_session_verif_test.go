package verifenv

import (
	"bytes"
	"common/proto/msg"
	"mime/multipart"
	"net/http"
	"net/http/cookiejar"
	"net/url"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verifharness/vh"
)

// Histories of logins, logouts and requests of several browsers while tokens are granted and revoked.
func TestVerif_D03_sessions(t *testing.T) {
	vh.Check(t, vh.N(500, 15000), "a request that a session must pass or refuse by more than the mere presence of a token", func(t *rapid.T, c *vh.Case) {
		a := New()
		defer a.Close()
		api := NewAPI()
		defer api.Close()
		meta, data := NewMeta(), NewMeta() // nobody must reach them unasked
		defer meta.Close()
		defer data.Close()
		meta.Metas["b/x"] = &msg.Metadata{Name: "x", Bucket: "b"}
		meta.Buckets["b"] = &msg.Bucket{Name: "b"}
		a.Register(APIName, "api", "", api.Addr())
		a.Register(MetaName, "meta", "", meta.Addr())
		a.Register(DataName, "data", "", data.Addr())
		a.Settle()
		apiUp, sick := true, 0
		valid := map[string]bool{"Basic QQ==": true}
		tokens := []string{"Basic QQ==", "Basic Qg==", "Bearer x"}
		api.Valid = func(tok string) bool { return valid[tok] }
		api.Handle = func(w http.ResponseWriter, k *Call) {
			switch {
			case k.Method == "PUT" && strings.HasPrefix(k.Path, "/v1/objects"), k.Method == "POST":
				w.WriteHeader(201)
			case k.Method == "DELETE":
				w.WriteHeader(204)
			default:
				w.WriteHeader(200)
			}
		}
		type browser struct {
			cli   *http.Client
			token string // of its session
		}
		var bs []*browser
		for i := 0; i < 3; i++ {
			jar, _ := cookiejar.New(nil)
			bs = append(bs, &browser{cli: &http.Client{Transport: a.Web.Client().Transport, Jar: jar}})
		}
		var form bytes.Buffer
		mp := multipart.NewWriter(&form)
		_ = mp.WriteField("bucket", "b")
		f, _ := mp.CreateFormFile("file", "x")
		_, _ = f.Write([]byte("content"))
		_ = mp.Close()
		type route struct {
			method, path string
			q            url.Values
			ct           string
			body         []byte
			passes       func(r Answer) bool // a request with a valid token
		}
		page := url.Values{"page": {"1"}, "pageSize": {"5"}, "name": {"b"}}
		ok := func(r Answer) bool { return r.Err == nil && r.Code/100 == 2 }
		unknown := func(r Answer) bool { return r.Err == nil && r.Code == 400 } // of a server that is not known
		js := "application/json"
		routes := []route{
			{"GET", "/api/metadata/page", page, "", nil, ok},
			{"GET", "/api/objects/download/x", url.Values{"bucket": {"b"}}, "", nil, ok},
			{"PUT", "/api/objects/upload", nil, mp.FormDataContentType(), form.Bytes(), ok},
			{"GET", "/api/metadata/buckets", page, "", nil, ok},
			{"DELETE", "/api/metadata/delete_bucket/b", nil, "", nil, ok},
			{"GET", "/api/metadata/versions", page, "", nil, ok},
			{"POST", "/api/metadata/create_bucket", nil, js, []byte(`{"name":"n"}`), ok},
			{"PUT", "/api/metadata/update_bucket", nil, js, []byte(`{"name":"n"}`), ok},
			{"POST", "/api/metadata/migration", nil, js, []byte(`{"srcServerId":"none","destServerId":"meta","slots":["0-1"]}`), unknown},
			{"POST", "/api/objects/join/none", nil, "", nil, unknown},
			{"POST", "/api/objects/leave/none", nil, "", nil, unknown},
			{"POST", "/api/metadata/leave_cluster", nil, js, []byte(`{"serverId":"none"}`), unknown},
			{"POST", "/api/metadata/join_leader", nil, js, []byte(`{"serverId":"none","masterId":"meta"}`), unknown},
			{"GET", "/api/metadata/slots_detail", nil, "", nil, ok},
			{"GET", "/api/metadata/peers", url.Values{"serverId": {"none"}}, "", nil, unknown},
			{"GET", "/api/metadata/config/none", nil, "", nil, unknown},
			{"GET", "/api/objects/config/none", nil, "", nil, unknown},
		}
		for n := rapid.IntRange(3, 25).Draw(t, "steps"); n > 0; n-- {
			i := rapid.IntRange(0, len(bs)-1).Draw(t, "browser")
			b := bs[i]
			h := map[string]string{}
			head := ""
			if rapid.IntRange(0, 2).Draw(t, "header") == 0 {
				head = rapid.SampledFrom(tokens).Draw(t, "token")
				h["Authorization"] = head
			}
			op := rapid.SampledFrom([]string{"request", "login", "request", "logout", "revoke", "grant", "tamper", "stop", "start", "sick", "sick"}).Draw(t, "op")
			switch op {
			case "revoke", "grant":
				tok := rapid.SampledFrom(tokens).Draw(t, "of")
				valid[tok] = op == "grant"
				c.Logf("%s %q", op, tok)
				continue
			case "sick":
				sick = rapid.SampledFrom([]int{0, 500, 503, -1, 429, 0}).Draw(t, "status")
				api.Sick.Store(int32(sick))
				c.Logf("checks fail with %d", sick)
				continue
			case "stop", "start":
				if apiUp == (op == "start") {
					continue
				}
				apiUp = !apiUp
				if apiUp {
					a.Register(APIName, "api", "", api.Addr())
				} else {
					a.Unregister(APIName, "api", "")
				}
				a.Settle()
				c.Logf("%s the API server", op)
				continue
			case "tamper":
				u, _ := url.Parse(a.Web.URL)
				cs := b.cli.Jar.Cookies(u)
				if len(cs) == 0 || len(cs[0].Value) == 0 {
					continue
				}
				v := []byte(cs[0].Value)
				// not the last ones, which may carry bits nobody reads
				p := rapid.IntRange(0, len(v)-8).Draw(t, "at")
				if v[p] == 'A' {
					v[p] = 'B'
				} else {
					v[p] = 'A'
				}
				b.cli.Jar.SetCookies(u, []*http.Cookie{{Name: cs[0].Name, Value: string(v), Path: "/"}})
				b.token = ""
				c.Class("forged cookie")
				c.Logf("browser %d forges its cookie", i)
				continue
			}
			// a token of a request becomes that of its session
			if head != "" {
				b.token = head
			}
			want := apiUp && sick == 0 && b.token != "" && valid[b.token]
			if b.token != "" && !valid[b.token] || head == "" && want {
				c.NonTrivial()
			}
			switch op {
			case "logout":
				r := a.Do(b.cli, "POST", "/api/logout", nil, h, nil)
				b.token = ""
				c.Class("logout")
				c.Logf("browser %d logs out (header %q): %d", i, head, r.Code)
				if !ok(r) {
					t.Fatalf("logout: answered %v", r)
				}
			case "login":
				r := a.Do(b.cli, "POST", "/api/login", nil, h, nil)
				c.Logf("browser %d logs in (header %q): %d", i, head, r.Code)
				if b.token == "" && apiUp && sick == 0 {
					want = valid[""]
				}
				if ok(r) != want || r.Err != nil {
					t.Fatalf("login of browser %d with %q, valid %v, api up %v: answered %v", i, b.token, valid[b.token], apiUp, r)
				}
			case "request":
				k := routes[(rapid.IntRange(0, len(routes)-1).Draw(t, "route")+n*5)%len(routes)]
				if k.ct != "" {
					h["Content-Type"] = k.ct
				}
				lists := meta.Lists() + data.Lists()
				r := a.Do(b.cli, k.method, k.path, k.q, h, k.body)
				calls := api.Calls()
				lists = meta.Lists() + data.Lists() - lists
				c.Logf("browser %d %s %s (header %q, session %q): %d", i, k.method, k.path, head, b.token, r.Code)
				if want {
					c.Class("passed")
					if !k.passes(r) {
						t.Fatalf("%s %s of browser %d with %q: answered %v", k.method, k.path, i, b.token, r)
					}
					for _, x := range calls {
						if x.Header.Get("Authorization") != b.token {
							t.Fatalf("%s %s of browser %d with %q: the API server got %q", k.method, k.path, i, b.token, x.Header.Get("Authorization"))
						}
					}
					continue
				}
				c.Class("refused")
				c.ClassIf(apiUp && sick != 0 && valid[b.token], "refused as it cannot be checked")
				c.ClassIf(b.token != "", "refused because the token is not valid")
				if r.Err != nil || r.Code < 400 || len(calls) > 0 || lists > 0 || r.Code == 400 || r.Code == 404 {
					t.Fatalf("%s %s of browser %d with %q (valid %v, api server up %v): answered %v, %d requests to the API server, %d to others",
						k.method, k.path, i, b.token, valid[b.token], apiUp, r, len(calls), lists)
				}
			}
		}
	})
}
