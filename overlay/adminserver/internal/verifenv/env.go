// Package verifenv runs the admin server over stand-ins of the other servers, for the property checks.
package verifenv

import (
	"adminserver/config"
	"adminserver/internal/controller"
	"adminserver/internal/usecase/db"
	"adminserver/internal/usecase/pool"
	"adminserver/resource"
	"bytes"
	"common/logs"
	"common/proto/msg"
	"common/registry"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gin-gonic/gin"

	"verifharness/fakeetcd"
)

// Group of all servers.
const Group = "verif"

// Names of the services.
const (
	APIName  = "apiserver"
	MetaName = "metaserver"
	DataName = "objectserver"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func init() {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	must(err)
	logs.SetLevel(logs.Error)
	logs.Std().SetOutput(null)
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter = io.Discard
	gin.DefaultErrorWriter = io.Discard
}

// Admin is an admin server with its surroundings.
type Admin struct {
	Etcd *fakeetcd.Store
	Web  *httptest.Server
	regs map[string]string // etcd key -> address
}

// New starts an admin server that knows no other server.
func New() *Admin {
	a := &Admin{Etcd: fakeetcd.New(), regs: map[string]string{}}
	cfg := &config.Config{Port: "1", Discovery: config.DiscoveryConfig{Group: Group, DataServName: DataName, MetaServName: MetaName, ApiServName: APIName}}
	pool.Config = cfg
	pool.Http = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 10}}
	pool.Etcd = a.Etcd.Client()
	pool.Discovery = registry.NewEtcdDiscovery(pool.Etcd, &registry.Config{ServerIP: "127.0.0.1", ServerPort: "1", Group: Group, Services: []string{DataName, MetaName, APIName}})
	pool.StatDB = db.NewServerStatDB(db.ServerStatCli{Watcher: pool.Etcd, KV: pool.Etcd}, Group, []string{DataName, MetaName, APIName})
	a.Web = httptest.NewUnstartedServer(controller.NewHttpServer("0", resource.FileSystem()).Handler)
	a.Web.Config.ErrorLog = nil
	a.Web.Start()
	return a
}

// Close ends it.
func (a *Admin) Close() {
	a.Web.Close()
	pool.Discovery.Close()
	_ = pool.StatDB.Close()
	pool.Http.CloseIdleConnections()
}

func eventually(what string, ok func() bool) {
	for i := 0; !ok(); i++ {
		if i > 60000 {
			panic(what + " does not happen")
		}
		time.Sleep(time.Millisecond)
	}
}

// Register a server; role is "", "_master" or "_slave".
func (a *Admin) Register(service, id, role, addr string) {
	key := fmt.Sprint(Group, "/registry/", service, "/", id, role)
	a.regs[key] = addr
	_, err := a.Etcd.Put(context.Background(), key, addr)
	must(err)
}

// Unregister a server.
func (a *Admin) Unregister(service, id, role string) {
	key := fmt.Sprint(Group, "/registry/", service, "/", id, role)
	delete(a.regs, key)
	_, err := a.Etcd.Delete(context.Background(), key)
	must(err)
}

// Settle waits until the admin server knows all that is registered.
func (a *Admin) Settle() {
	eventually("discovery of the registered servers", func() bool {
		for _, s := range []string{APIName, MetaName, DataName} {
			var want []string
			for k, v := range a.regs {
				if strings.HasPrefix(k, Group+"/registry/"+s+"/") {
					want = append(want, v)
				}
			}
			got := append([]string{}, pool.Discovery.GetServices(s)...)
			sort.Strings(got)
			sort.Strings(want)
			if strings.Join(got, " ") != strings.Join(want, " ") {
				return false
			}
		}
		return true
	})
}

// Answer to a request.
type Answer struct {
	Code   int
	Header http.Header
	Body   []byte
	Err    error // the answer broke off, or there was none
}

func (w Answer) String() string {
	b := w.Body
	if len(b) > 300 {
		b = b[:300]
	}
	return fmt.Sprintf("%d %q (error %v)", w.Code, b, w.Err)
}

// Do sends a request to the admin server.
func (a *Admin) Do(cli *http.Client, method, path string, q url.Values, h map[string]string, body []byte) (w Answer) {
	u := a.Web.URL + path
	if q != nil {
		u += "?" + q.Encode()
	}
	req, err := http.NewRequest(method, u, bytes.NewReader(body))
	must(err)
	for k, v := range h {
		req.Header.Set(k, v)
	}
	if cli == nil {
		cli = a.Web.Client()
	}
	resp, err := cli.Do(req)
	if err != nil {
		w.Err = err
		return
	}
	defer resp.Body.Close()
	w.Code, w.Header = resp.StatusCode, resp.Header
	w.Body, w.Err = io.ReadAll(resp.Body)
	return
}

// Meta stands in for a metadata server.
type Meta struct {
	*httptest.Server
	Metas   map[string]*msg.Metadata // by bucket/name
	Buckets map[string]*msg.Bucket
	// Fail, if set, answers a listing in its stead when it returns true.
	Fail  func(w http.ResponseWriter, r *http.Request) bool
	mu    sync.Mutex
	lists int
}

// NewMeta starts one.
func NewMeta() *Meta {
	m := &Meta{Metas: map[string]*msg.Metadata{}, Buckets: map[string]*msg.Bucket{}}
	m.Server = httptest.NewServer(m)
	return m
}

// Addr of it.
func (m *Meta) Addr() string { return strings.TrimPrefix(m.URL, "http://") }

// Lists tells how many listings it was asked for.
func (m *Meta) Lists() int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.lists
}

func (m *Meta) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	m.mu.Lock()
	m.lists++
	m.mu.Unlock()
	if m.Fail != nil && m.Fail(w, r) {
		return
	}
	prefix := r.URL.Query().Get("prefix")
	size, err := strconv.Atoi(r.URL.Query().Get("page_size"))
	if err != nil || size == 0 || size > 10000 {
		w.WriteHeader(400)
		_, _ = io.WriteString(w, `{"message":"page_size"}`)
		return
	}
	var keys []string
	collect := func(k string) {
		if strings.HasPrefix(k, prefix) {
			keys = append(keys, k)
		}
	}
	var res any
	switch r.URL.Path {
	case "/metadata/list":
		for k := range m.Metas {
			collect(k)
		}
	case "/bucket/list":
		for k := range m.Buckets {
			collect(k)
		}
	default:
		w.WriteHeader(404)
		return
	}
	total := len(keys)
	sort.Strings(keys)
	if len(keys) > size {
		keys = keys[:size]
	}
	if r.URL.Path == "/metadata/list" {
		lst := []*msg.Metadata{}
		for _, k := range keys {
			lst = append(lst, m.Metas[k])
		}
		// a page is ordered by time
		sort.SliceStable(lst, func(i, j int) bool { return lst[i].CreateTime < lst[j].CreateTime })
		res = lst
	} else {
		lst := []*msg.Bucket{}
		for _, k := range keys {
			lst = append(lst, m.Buckets[k])
		}
		res = lst
	}
	w.Header().Set("X-Total-Count", strconv.Itoa(total))
	w.Header().Set("Content-Type", "application/json")
	_ = json.NewEncoder(w).Encode(res)
}

// Call is a request an API server got.
type Call struct {
	Method, Path string // Path is escaped
	Query        url.Values
	Header       http.Header
	Body         []byte
}

// API stands in for an API server.
type API struct {
	*httptest.Server
	// Valid says which tokens pass.
	Valid func(token string) bool
	// Sick is the status all checks of tokens fail with, -1 for a broken connection.
	Sick atomic.Int32
	// Handle answers what is not a check of a token.
	Handle func(w http.ResponseWriter, c *Call)
	mu     sync.Mutex
	calls  []*Call
}

// NewAPI starts one.
func NewAPI() *API {
	p := &API{Valid: func(t string) bool { return true }}
	p.Server = httptest.NewServer(p)
	return p
}

// Addr of it.
func (p *API) Addr() string { return strings.TrimPrefix(p.URL, "http://") }

// Calls returns the requests since the last time, without checks of tokens.
func (p *API) Calls() []*Call {
	p.mu.Lock()
	defer p.mu.Unlock()
	r := p.calls
	p.calls = nil
	return r
}

func (p *API) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	fail := func(code int) {
		w.WriteHeader(code)
		_, _ = io.WriteString(w, `{"success":false,"message":"no"}`)
	}
	bt, err := io.ReadAll(r.Body)
	if err != nil {
		fail(400)
		return
	}
	p.mu.Lock()
	ok := p.Valid(r.Header.Get("Authorization"))
	if r.URL.Path == "/v1/security/check" {
		p.mu.Unlock()
		if sick := int(p.Sick.Load()); sick < 0 {
			panic(http.ErrAbortHandler)
		} else if sick > 0 {
			fail(sick)
		} else if ok {
			w.WriteHeader(200)
		} else {
			fail(401)
		}
		return
	}
	c := &Call{Method: r.Method, Path: r.URL.EscapedPath(), Query: r.URL.Query(), Header: r.Header, Body: bt}
	p.calls = append(p.calls, c)
	p.mu.Unlock()
	if !ok {
		fail(401)
		return
	}
	if p.Handle != nil {
		p.Handle(w, c)
		return
	}
	w.WriteHeader(200)
}
