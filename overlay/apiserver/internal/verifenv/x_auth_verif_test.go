package verifenv

import (
	"apiserver/internal/usecase/componet/auth/credential"
	"apiserver/internal/usecase/pool"
	"common/cst"
	"common/util"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"sync"
	"testing"

	"verifharness/vh"

	"pgregory.net/rapid"
)

// callbackServer decides on requests as it is told.
type callbackServer struct {
	mu     sync.Mutex
	srv    *httptest.Server
	status int
	asked  []asked
}

type asked struct {
	query url.Values
	token credential.CallbackToken
	err   error
}

func (s *callbackServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	defer s.mu.Unlock()
	var a asked
	a.query = r.URL.Query()
	bt, _ := io.ReadAll(r.Body)
	a.err = json.Unmarshal(bt, &a.token)
	s.asked = append(s.asked, a)
	if s.status == 0 {
		panic(http.ErrAbortHandler)
	}
	w.WriteHeader(s.status)
	if s.status != http.StatusNoContent && s.status != http.StatusNotModified {
		_, _ = io.WriteString(w, `{"message":"no"}`)
	}
}

func (s *callbackServer) answer(status int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.status, s.asked = status, nil
}

func (s *callbackServer) log() []asked {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]asked(nil), s.asked...)
}

var (
	callbackOnce sync.Once
	theCallback  *callbackServer
	deadAddr     string
)

func callback() *callbackServer {
	callbackOnce.Do(func() {
		theCallback = &callbackServer{}
		theCallback.srv = httptest.NewServer(theCallback)
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		deadAddr = l.Addr().String()
		_ = l.Close()
	})
	return theCallback
}

type authRoute struct {
	method, path string
	bucket       bool // needs the bucket header
}

var authRoutes = []authRoute{
	{"GET", "/v1/objects/f.txt", true},
	{"GET", "/v1/metadata/f.txt", true},
	{"PUT", "/v1/objects/dir%2Ff", true},
	{"GET", "/v1/bucket/bk", false},
	{"GET", "/v1/security/check", false},
	{"DELETE", "/v1/bucket/bk", false},
	{"POST", "/v1/big/f.bin", true},
	{"POST", "/v1/bucket", false},
}

// TestVerif_A07_requests sends requests with all kinds of credentials to all kinds of configurations.
func TestVerif_A07_requests(t *testing.T) {
	w := web()
	a := w.api
	cb := callback()
	users := []string{"admin", "root", "", "adm", "a:b"}
	pwds := []string{"secret", "pass", "", "secre", "x:y", "Secret"}
	vh.Check(t, vh.N(2500, 40000), "authentication is on and at least one authenticator is enabled", func(t *rapid.T, c *vh.Case) {
		a.Reset()
		cfg := &pool.Config.Auth
		cfg.Enable = rapid.IntRange(0, 7).Draw(t, "off") > 0
		cfg.Callback.Enable = rapid.Bool().Draw(t, "callback")
		cfg.Password.Enable = rapid.Bool().Draw(t, "password")
		cfg.Callback.Params = rapid.SampledFrom([][]string{nil, {"token"}, {"token", "X-Key"}}).Draw(t, "params")
		cfg.Callback.Url = cb.srv.URL + "/check"
		extra := url.Values{}
		if rapid.IntRange(0, 3).Draw(t, "dead") == 0 {
			cfg.Callback.Url = "http://" + deadAddr
		}
		var white []string
		if rapid.IntRange(0, 2).Draw(t, "white") == 0 {
			white = rapid.SampledFrom([][]string{{"/v1/security"}, {"/v1/objects"}, {"/v1/bucket/:name"}, {"/ping", "/v1/metadata"}, {"/v1/object/"}}).Draw(t, "white list")
			cfg.White(white...)
		}
		if cfg.Enable && (cfg.Callback.Enable || cfg.Password.Enable) {
			c.NonTrivial()
		}
		// credentials: stored before, or initialized
		type cred struct{ user, pwd string }
		var stored *cred
		store := func(c cred) {
			bt, err := util.EncodeMsgp(&credential.AdminCredential{Username: c.user, Password: c.pwd})
			must(err)
			_, err = a.Etcd.Put(context.Background(), cst.EtcdPrefix.ApiCredential, string(bt))
			must(err)
		}
		broken := false
		switch rapid.SampledFrom([]string{"stored", "none", "broken", "stored"}).Draw(t, "stored") {
		case "stored":
			stored = &cred{rapid.SampledFrom(users).Draw(t, "stored user"), rapid.SampledFrom(pwds).Draw(t, "stored password")}
			store(*stored)
		case "broken":
			broken = true
			_, _ = a.Etcd.Put(context.Background(), cst.EtcdPrefix.ApiCredential, "\x81\xff")
		}
		cfg.Password.Username = rapid.SampledFrom(users).Draw(t, "configured user")
		cfg.Password.Password = rapid.SampledFrom(pwds).Draw(t, "configured password")
		startFails := rapid.IntRange(0, 3).Draw(t, "start fails") == 0
		if startFails {
			c.Class("coordination store fails at the start")
			a.Etcd.Before = func(op, key string) error {
				if op == "get" && strings.HasPrefix(key, cst.EtcdPrefix.ApiCredential) {
					return errors.New("store fails")
				}
				return nil
			}
		}
		w.Reset()
		a.Etcd.Before = nil
		if stored == nil && !broken && cfg.Password.Enable && cfg.Password.Username != "" && cfg.Password.Password != "" {
			stored = &cred{cfg.Password.Username, cfg.Password.Password}
			if startFails {
				// it may have been initialized or not
				resp, err := a.Etcd.Get(context.Background(), cst.EtcdPrefix.ApiCredential)
				must(err)
				if len(resp.Kvs) == 0 {
					stored = nil
				}
			}
		}
		c.Logf("enable %t, callback %+v, password %+v, white %q, stored %+v, broken %t, start fails %t", cfg.Enable, cfg.Callback, cfg.Password, white, stored, broken, startFails)
		for i, n := 0, rapid.IntRange(1, 5).Draw(t, "requests"); i < n; i++ {
			if i > 0 && rapid.IntRange(0, 3).Draw(t, "change") == 0 {
				stored = &cred{rapid.SampledFrom(users).Draw(t, "new user"), rapid.SampledFrom(pwds).Draw(t, "new password")}
				store(*stored)
				c.Class("credentials changed")
				c.Logf("  credentials are now %+v", *stored)
			}
			r := rapid.SampledFrom(authRoutes).Draw(t, "route")
			status := rapid.SampledFrom([]int{200, 403, 401, 200, 204, 304, 500, 404, 0, 201, 302, 400}).Draw(t, "callback answers")
			cb.answer(status)
			u, err := url.Parse("http://" + w.addr + r.path)
			must(err)
			q := url.Values{}
			version := 0
			if rapid.Bool().Draw(t, "versioned") {
				version = rapid.IntRange(0, 5).Draw(t, "version")
				q.Set("version", fmt.Sprint(version))
			}
			body := io.Reader(strings.NewReader("some content"))
			if r.method == "GET" || r.method == "DELETE" {
				body = nil
			}
			req, err := http.NewRequest(r.method, u.String(), body)
			must(err)
			if r.path == "/v1/bucket" {
				req.Body = io.NopCloser(strings.NewReader(`{"name":"new"}`))
				req.ContentLength = 14
			}
			host := rapid.SampledFrom([]string{"", "bk1.example.com", "localhost:80", "other.127.0.0.1", ".x"}).Draw(t, "host")
			req.Host = host
			if host == "" {
				req.Host = w.addr
			}
			bucket := ""
			if r.bucket || rapid.Bool().Draw(t, "header") {
				bucket = rapid.SampledFrom([]string{"bk", "bk1", "b.c"}).Draw(t, "bucket")
				req.Header.Set("Bucket", bucket)
			}
			expectBucket := bucket
			if bucket == "" {
				if i := strings.IndexByte(req.Host, '.'); i > 0 {
					expectBucket = req.Host[:i]
				}
			}
			req.Header.Set("Digest", "d")
			req.Header.Set("Size", "12")
			region := rapid.SampledFrom([]string{"", "eu"}).Draw(t, "region")
			if region != "" {
				req.Header.Set("Region", region)
			}
			extra = url.Values{}
			if rapid.Bool().Draw(t, "token") {
				for i, n := 0, rapid.IntRange(1, 2).Draw(t, "tokens"); i < n; i++ {
					q.Add("token", fmt.Sprint("t", i))
					extra.Add("token", fmt.Sprint("t", i))
				}
			}
			if rapid.IntRange(0, 2).Draw(t, "token in header") == 0 {
				req.Header.Set("Token", "t9")
				extra.Add("token", "t9")
			}
			if rapid.Bool().Draw(t, "key") {
				req.Header.Set("X-Key", "k&=1")
				extra.Add("X-Key", "k&=1")
			}
			// what has no meaning must not change what the callback is asked
			if rapid.IntRange(0, 2).Draw(t, "decoys") == 0 {
				c.Class("misleading body, headers and parameters")
				if r.method != "GET" && r.method != "DELETE" && r.path != "/v1/bucket" {
					b := "version=9&bucket=form&name=form&token=form&region=form&method=GET"
					req.Body, req.ContentLength = io.NopCloser(strings.NewReader(b)), int64(len(b))
					req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
				}
				for _, k := range []string{"bucket", "name", "method", "region", "file_name", "Name", "Bucket", "Hash"} {
					q.Set(k, "query")
				}
				q.Set("Version", "7")
				for _, k := range []string{"Version", "Name", "Method", "File_name", "X-HTTP-Method-Override", "X-Original-Url"} {
					req.Header.Set(k, "8")
				}
			}
			req.URL.RawQuery = q.Encode()
			given := rapid.SampledFrom([]string{"right", "configured", "other", "none", "malformed"}).Draw(t, "given")
			var has *cred
			switch given {
			case "right":
				if has = stored; has == nil {
					has = &cred{"", ""}
				}
			case "configured":
				has = &cred{cfg.Password.Username, cfg.Password.Password}
			case "other":
				has = &cred{rapid.SampledFrom(users).Draw(t, "user"), rapid.SampledFrom(pwds).Draw(t, "pwd")}
			case "malformed":
				req.Header.Set("Authorization", rapid.SampledFrom([]string{"Basic ???", "Bearer x", "Basic YWRtaW4="}).Draw(t, "header"))
			}
			match := false
			if has != nil {
				req.SetBasicAuth(has.user, has.pwd)
				// a user name cannot contain a colon
				user, pwd, _ := strings.Cut(has.user+":"+has.pwd, ":")
				match = stored != nil && user == stored.user && pwd == stored.pwd
			}
			storeFails := rapid.IntRange(0, 5).Draw(t, "store fails") == 0
			if storeFails {
				a.Etcd.Before = func(op, key string) error {
					if op == "get" && strings.HasPrefix(key, cst.EtcdPrefix.ApiCredential) {
						return errors.New("store fails")
					}
					return nil
				}
			}
			seen := len(a.Meta.AllCalls())
			resp, err := w.Client.Transport.RoundTrip(req)
			if err != nil {
				t.Fatalf("%s %s: %s", r.method, u, err)
			}
			_, _ = io.Copy(io.Discard, resp.Body)
			_ = resp.Body.Close()
			w.Quiet(patience)
			a.Etcd.Before = nil
			calls := a.Meta.AllCalls()[seen:]
			ran := len(calls) > 0
			if r.path == "/v1/security/check" {
				ran = resp.StatusCode == 200
			}
			listed := false
			full := map[string]string{"/v1/bucket": "/v1/bucket", "/v1/security/check": "/v1/security/check", "/v1/bucket/bk": "/v1/bucket/:name"}[r.path]
			if full == "" {
				full = r.path[:strings.LastIndexByte(r.path, '/')] + "/:name"
			}
			for _, p := range white {
				listed = listed || strings.HasPrefix(full, p)
			}
			log := cb.log()
			approved := cfg.Callback.Enable && expectBucket != "" && status == 200 && !strings.Contains(cfg.Callback.Url, deadAddr)
			allowed := !cfg.Enable || listed || approved || cfg.Password.Enable && match && !storeFails
			what := fmt.Sprintf("%s %s (host %q, bucket %q, credentials %s %+v, store fails %t, callback answers %d, asked %+v): %d, handler ran %t %q", r.method, req.URL, req.Host, bucket, given, has, storeFails, status, log, resp.StatusCode, ran, calls)
			c.Logf("  %s", what)
			c.ClassIf(allowed, "allowed")
			c.ClassIf(!allowed, "refused")
			if allowed != ran {
				t.Fatalf("allowed is %t: %s", allowed, what)
			}
			if !allowed && resp.StatusCode < 400 {
				t.Fatalf("a refused request is answered as a success: %s", what)
			}
			if (!cfg.Enable || !cfg.Callback.Enable) && len(log) > 0 {
				t.Fatalf("the callback is asked though it is disabled: %s", what)
			}
			if !ran || len(log) == 0 || status != 200 {
				continue
			}
			c.Class("callback approved")
			if len(log) != 1 {
				t.Fatalf("the callback is asked %d times: %s", len(log), what)
			}
			g := log[0]
			file := ""
			if strings.HasSuffix(full, ":name") {
				file = r.path[strings.LastIndexByte(r.path, '/')+1:]
			}
			// what the handler is after
			if f := strings.Fields(calls0(calls)); len(f) > 2 && strings.HasPrefix(full, "/v1/metadata") || len(f) > 2 && r.method == "GET" && strings.HasPrefix(full, "/v1/objects") {
				if f[1] != g.token.Bucket || f[2] != g.token.FileName || r.method == "GET" && version > 0 && f[3] != fmt.Sprint(version) {
					t.Fatalf("the callback approved %+v, the handler uses %q: %s", g.token, calls, what)
				}
			}
			if g.err != nil || g.token.Bucket != expectBucket || g.token.FileName != file || g.token.Method != r.method || g.token.Version != version || g.token.Region != region {
				t.Fatalf("the callback is sent %+v (%v), expected bucket %q, file %q, version %d: %s", g.token, g.err, expectBucket, file, version, what)
			}
			for _, p := range cfg.Callback.Params {
				got, want := g.query[p], extra[p]
				sort.Strings(got)
				if fmt.Sprint(got) != fmt.Sprint(want) {
					t.Fatalf("the callback is sent %q for %s, expected %q: %s", got, p, want, what)
				}
			}
		}
	})
}

func calls0(calls []string) string {
	for _, c := range calls {
		if strings.HasPrefix(c, "get") {
			return c
		}
	}
	return ""
}
