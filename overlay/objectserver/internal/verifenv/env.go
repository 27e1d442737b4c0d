// Package verifenv runs a data server the way internal/app does, over scratch
// directories standing in for disks, for the property checks.
package verifenv

import (
	"bufio"
	"bytes"
	"common/cache"
	"common/datasize"
	"common/logs"
	"common/registry"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"objectserver/config"
	"objectserver/internal/controller/grpc"
	httpctl "objectserver/internal/controller/http"
	"objectserver/internal/db"
	"objectserver/internal/entity"
	"objectserver/internal/usecase/component"
	"objectserver/internal/usecase/pool"
	"objectserver/internal/usecase/service"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/allegro/bigcache/v3"
	"github.com/gin-gonic/gin"
	"os/signal"
)

// Self is the address the server is registered with.
const Self = "127.0.0.1:8100"

// Discovery is a registry filled by hand: service name -> server id -> address.
type Discovery struct {
	mu   sync.Mutex
	Serv map[string]map[string]string
}

var _ registry.Discovery = (*Discovery)(nil)

func (d *Discovery) GetServices(name string) []string {
	d.mu.Lock()
	defer d.mu.Unlock()
	var r []string
	for _, a := range d.Serv[name] {
		r = append(r, a)
	}
	sort.Strings(r)
	return r
}

func (d *Discovery) GetServiceMapping(name string) map[string]string {
	d.mu.Lock()
	defer d.mu.Unlock()
	r := map[string]string{}
	for k, a := range d.Serv[name] {
		r[k] = a
	}
	return r
}

func (d *Discovery) GetServiceMappingWith(name string, _ bool) map[string]string {
	return d.GetServiceMapping(name)
}

func (d *Discovery) GetService(name string, id string) (string, bool) {
	d.mu.Lock()
	defer d.mu.Unlock()
	a, ok := d.Serv[name][id]
	return a, ok
}

// Pick is the balancer of the scratch disks: which one is next is decided by the test.
type Pick struct {
	mu   sync.Mutex
	next int
}

func (p *Pick) Set(i int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.next = i
}

func (p *Pick) Select(ds []*component.Driver) (*component.Driver, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(ds) == 0 {
		return nil, errors.New("no disk")
	}
	d := ds[p.next%len(ds)]
	p.next++
	return d, nil
}

// Node is the data server of this process (its parts are global).
type Node struct {
	Root      string
	Mounts    []string
	Pick      *Pick
	Disc      *Discovery
	Migration *service.MigrationService
	Server    *httptest.Server
	Addr      string
	client    *http.Client
	stopClean func()
	pathDir   int
	// Lazy makes the cache take its time now and then, from the next start on
	Lazy bool
}

// MaxItem is the biggest object kept in the cache.
const MaxItem = 16 * 1024

// NewCache makes a cache as a server has it, but with fewer shards.
func NewCache() cache.ICache {
	conf := bigcache.DefaultConfig(time.Hour)
	conf.Shards = 4
	conf.CleanWindow = 0
	conf.MaxEntrySize = 1024
	conf.MaxEntriesInWindow = 64
	conf.Verbose = false
	return cache.NewCache(conf)
}

// gaveUp: something did not happen in a long time, the rest is about making the history small
var gaveUp atomic.Bool

// lazyCache pauses now and then, so that requests meet in between.
type lazyCache struct {
	cache.ICache
	n atomic.Uint32
}

func (l *lazyCache) pause() {
	if n := l.n.Add(1); n*2654435761>>28 < 3 {
		time.Sleep(time.Duration(n%7) * 300 * time.Microsecond)
	}
}

func (l *lazyCache) Has(k string) bool              { l.pause(); return l.ICache.Has(k) }
func (l *lazyCache) HasGet(k string) ([]byte, bool) { l.pause(); return l.ICache.HasGet(k) }
func (l *lazyCache) Set(k string, v []byte) bool    { l.pause(); return l.ICache.Set(k, v) }
func (l *lazyCache) Delete(k string)                { l.pause(); l.ICache.Delete(k) }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func init() {
	gin.SetMode(gin.ReleaseMode)
	if os.Getenv("VERIF_LOG") == "" {
		logs.SetLevel(logs.Error)
		logs.SetOutput(io.Discard)
	}
	// a write beyond the file size limit fails, it does not kill
	signal.Ignore(syscall.SIGXFSZ)
}

// New makes a server with the given number of disks under root. Use one per process.
func New(root string, disks int) *Node {
	n := &Node{Root: root, Pick: &Pick{}, Disc: &Discovery{Serv: map[string]map[string]string{}}}
	for i := 0; i < disks; i++ {
		n.Mounts = append(n.Mounts, filepath.Join(root, "disks", "d"+strconv.Itoa(i)))
	}
	cfg := &config.Config{}
	cfg.Port = "8100"
	cfg.BaseMountPoint = n.Mounts[0]
	cfg.Cache.MaxItemSize = datasize.DataSize(MaxItem)
	cfg.Registry.Name = "objectserver"
	cfg.Registry.Group = "g"
	cfg.Registry.ServerID = "self"
	cfg.Registry.ServerPort = "8100"
	cfg.Discovery.MetaServName = "metaserver"
	cfg.StoragePath = filepath.Join("/objects", "self_store")
	cfg.TempPath = cfg.StoragePath
	pool.Config = cfg
	pool.Discovery = n.Disc
	n.Disc.Serv["objectserver"] = map[string]string{"self": Self}
	n.mkdirs()
	n.useDisks(n.Mounts)
	n.NewPathDB()
	n.Migration = service.NewMigrationService(db.NewObjectCapacity())
	n.boot()
	n.client = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 32}}
	srv := httpctl.NewHttpServer("8100", grpc.NewServer(n.Migration))
	n.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if ms, _ := strconv.Atoi(r.Header.Get(SlowReader)); ms > 0 {
			w = &slowWriter{w, time.Duration(ms) * time.Millisecond}
		}
		srv.Handler.ServeHTTP(w, r)
	}))
	n.Addr = n.Server.Listener.Addr().String()
	return n
}

func (n *Node) mkdirs() {
	for _, m := range n.Mounts {
		must(os.MkdirAll(filepath.Join(m, pool.Config.StoragePath), 0o700))
	}
}

// useDisks makes the real disk discovery see these directories as mount points.
func (n *Node) useDisks(mounts []string) {
	var b strings.Builder
	for i, m := range mounts {
		fmt.Fprintf(&b, "%d 1 8:%d / %s rw - ext4 /dev/verif%d rw\n", 36+i, i, m, i)
	}
	f := filepath.Join(n.Root, "mountinfo")
	must(os.WriteFile(f, []byte(b.String()), 0o600))
	must(os.Setenv("HOST_PROC_MOUNTINFO", f))
	dm := component.NewDriverManager(n.Pick)
	dm.Update()
	if got := len(dm.GetAllMountPoint()); got != len(mounts) {
		panic(fmt.Sprintf("%d of %d disks found", got, len(mounts)))
	}
	pool.DriverManager = dm
}

// SlowReader is the header of a request whose client takes so many milliseconds to read a piece of the answer.
const SlowReader = "Verif-Slow-Reader"

type slowWriter struct {
	http.ResponseWriter
	pause time.Duration
}

func (s *slowWriter) Write(b []byte) (int, error) {
	time.Sleep(s.pause)
	return s.ResponseWriter.Write(b)
}

func (s *slowWriter) Unwrap() http.ResponseWriter { return s.ResponseWriter }

func (s *slowWriter) Flush() {
	if f, ok := s.ResponseWriter.(http.Flusher); ok {
		f.Flush()
	}
}

// NewPathDB starts with an empty index of paths.
func (n *Node) NewPathDB() {
	if pool.PathDB != nil {
		_ = pool.PathDB.Close()
	}
	n.pathDir++
	var err error
	pool.PathDB, err = db.NewPathCache(filepath.Join(n.Root, "path-cache"+strconv.Itoa(n.pathDir)))
	must(err)
}

func (n *Node) boot() {
	if n.stopClean != nil {
		n.stopClean()
	}
	// the old one is left to the collector: removals may still be notified
	pool.Cache = NewCache()
	if n.Lazy {
		pool.Cache = &lazyCache{ICache: pool.Cache}
	}
	pool.ObjectCap = db.NewObjectCapacity()
	n.Migration.CapacityDB = pool.ObjectCap
	n.stopClean = service.StartTempRemovalBackground(pool.Cache, 2)
	service.WarmUpLocateCache()
}

// Restart loses what is in memory.
func (n *Node) Restart() { n.boot() }

// Reset starts over with empty disks.
func (n *Node) Reset() {
	for _, m := range n.Mounts {
		must(os.RemoveAll(m))
	}
	n.mkdirs()
	n.boot()
}

func (n *Node) Close() {
	n.stopClean()
	n.Server.Close()
	_ = pool.PathDB.Close()
}

// Storage is the directory of objects on disk i.
func (n *Node) Storage(i int) string { return filepath.Join(n.Mounts[i], pool.Config.StoragePath) }

// File is one file under the storage path.
type File struct {
	Disk int
	Name string
	Path string
	Size int64
}

// Files lists what is on the disks: objects and temporary files.
func (n *Node) Files() (objects, temps []File) {
	for i := range n.Mounts {
		_ = filepath.WalkDir(n.Storage(i), func(p string, d fs.DirEntry, err error) error {
			if err != nil || d.IsDir() {
				return nil
			}
			info, err := d.Info()
			if err != nil {
				return nil
			}
			f := File{i, d.Name(), p, info.Size()}
			if strings.HasPrefix(d.Name(), entity.TempKeyPrefix) {
				temps = append(temps, f)
			} else {
				objects = append(objects, f)
			}
			return nil
		})
	}
	return
}

// Resp is an answer read to its end.
type Resp struct {
	Status int
	Header http.Header
	Body   []byte
	// Broken is why the body or the answer could not be read to its end
	Broken error
}

func (r Resp) OK() bool { return r.Broken == nil && r.Status >= 200 && r.Status < 300 }
func (r Resp) String() string {
	b := string(r.Body)
	if len(b) > 120 {
		b = b[:120] + "..."
	}
	return fmt.Sprintf("status %d, %d bytes %q, err %v", r.Status, len(r.Body), b, r.Broken)
}

// Do sends a request.
func (n *Node) Do(method, path string, body []byte, headers ...string) Resp {
	return n.DoCtx(method, n.Addr, path, body, headers...)
}

func (n *Node) DoCtx(method, addr, path string, body []byte, headers ...string) Resp {
	var rd io.Reader
	if body != nil {
		rd = bytes.NewReader(body)
	}
	req, err := http.NewRequest(method, "http://"+addr+path, rd)
	must(err)
	for i := 0; i+1 < len(headers); i += 2 {
		req.Header.Set(headers[i], headers[i+1])
	}
	resp, err := n.client.Do(req)
	if err != nil {
		return Resp{Broken: err}
	}
	defer resp.Body.Close()
	bt, err := io.ReadAll(resp.Body)
	return Resp{resp.StatusCode, resp.Header, bt, err}
}

// Split sends the head and the first bytes of a body said to have size bytes, calls between, sends the rest, which may
// be too short, and ends the stream. It returns when the server has ended the request.
func (n *Node) Split(method, path string, size int64, first []byte, between func(), rest []byte) Resp {
	conn, err := net.Dial("tcp", n.Addr)
	must(err)
	defer conn.Close()
	fmt.Fprintf(conn, "%s %s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n", method, path, size)
	_, _ = conn.Write(first)
	if between != nil {
		between()
	}
	_, _ = conn.Write(rest)
	_ = conn.(*net.TCPConn).CloseWrite()
	resp, err := http.ReadResponse(bufio.NewReader(conn), nil)
	if err != nil {
		return Resp{Broken: err}
	}
	defer resp.Body.Close()
	bt, err := io.ReadAll(resp.Body)
	return Resp{resp.StatusCode, resp.Header, bt, err}
}

// Limited runs fn while no file can grow beyond max bytes: a disk that gets full.
func Limited(max int64, fn func()) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(max), Max: old.Max}))
	defer func() { must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
	fn()
}

// Eventually polls until cond holds. The time given is more than anything here needs on a busy machine.
func Eventually(cond func() bool) bool {
	limit := 60 * time.Second
	if gaveUp.Load() {
		limit = 2 * time.Second
	}
	for end := time.Now().Add(limit); ; {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			gaveUp.Store(true)
			return false
		}
		time.Sleep(time.Millisecond)
	}
}

// Content makes size bytes that differ for each seed. Half of it can be compressed.
func Content(seed int64, size int) []byte {
	r := rand.New(rand.NewSource(seed))
	b := make([]byte, size)
	for i := 0; i < size; {
		n := 1 + r.Intn(600)
		if i+n > size {
			n = size - i
		}
		if r.Intn(2) == 0 {
			v := byte(1 + r.Intn(255))
			for j := i; j < i+n; j++ {
				b[j] = v
			}
		} else {
			r.Read(b[i : i+n])
		}
		i += n
	}
	// no two contents are alike, also when read from within
	if size >= 64 {
		r.Read(b[size-12:])
	}
	// neither end looks like padding
	if size > 0 {
		b[size-1] |= 1
		b[0] |= 1
	}
	return b
}
