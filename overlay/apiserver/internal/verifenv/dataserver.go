// Package verifenv runs the parts of an API server over data servers and a
// metadata store kept in memory, for the property checks.
package verifenv

import (
	"apiserver/internal/usecase/componet/selector"
	"common/request"
	"common/util"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Stored is an object of a data server.
type Stored struct {
	Data     []byte
	Compress bool
}

type upload struct {
	name string
	data []byte
}

// Fault is what happens instead of the proper answer.
type Fault struct {
	Status int  // answered instead
	Reset  bool // the stream is reset without an answer
	Late   bool // with Status or Reset: what was asked for is done all the same
	Cut    int  // of a read: the stream is reset after so many bytes (if > 0)
	Short  int  // of a read: it ends properly after so many bytes (if > 0)
}

// DataServer answers like a data server.
type DataServer struct {
	Idx  int
	Addr string
	cl   *Cluster
	mu   sync.Mutex
	objs map[string]*Stored
	tmps map[string]*upload
	srv  *http.Server
	cap  int64 // used
	io   int64
}

// Cluster is a set of data servers.
type Cluster struct {
	Servers []*DataServer
	seq     atomic.Int64
	// Active is the number of requests being answered.
	Active atomic.Int64
	// Pad makes reads beyond the end return padding, as the block-wise reads of data servers do.
	Pad   bool
	mu    sync.Mutex
	fault func(ds *DataServer, op, name string) Fault
	log   []string
}

// NewCluster starts n data servers.
func NewCluster(n int) *Cluster {
	c := &Cluster{Pad: true}
	for i := 0; i < n; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		d := &DataServer{Idx: i, Addr: l.Addr().String(), cl: c}
		d.clear()
		d.srv = &http.Server{Handler: util.H2CHandler(d, nil)}
		go func() { _ = d.srv.Serve(l) }()
		c.Servers = append(c.Servers, d)
	}
	return c
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Reset empties all servers and stops faults.
func (c *Cluster) Reset() {
	c.SetFault(nil)
	c.mu.Lock()
	c.log = nil
	c.mu.Unlock()
	for _, d := range c.Servers {
		d.clear()
	}
}

func (d *DataServer) clear() {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.objs, d.tmps = map[string]*Stored{}, map[string]*upload{}
}

// SetFault decides on the requests from now on.
func (c *Cluster) SetFault(f func(ds *DataServer, op, name string) Fault) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.fault = f
}

func (c *Cluster) faultOf(ds *DataServer, op, name string) Fault {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.log = append(c.log, fmt.Sprintf("%d %s %s", ds.Idx, op, name))
	if c.fault == nil {
		return Fault{}
	}
	return c.fault(ds, op, name)
}

// Log lists the requests so far.
func (c *Cluster) Log() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]string(nil), c.log...)
}

// At finds the server of an address.
func (c *Cluster) At(addr string) *DataServer {
	for _, d := range c.Servers {
		if d.Addr == addr {
			return d
		}
	}
	return nil
}

// Addrs are the addresses of all servers.
func (c *Cluster) Addrs() (r []string) {
	for _, d := range c.Servers {
		r = append(r, d.Addr)
	}
	return
}

// Objects are all stored objects, as "server name".
func (c *Cluster) Objects() map[string]*Stored {
	r := map[string]*Stored{}
	for _, d := range c.Servers {
		for k, v := range d.Objects() {
			r[fmt.Sprint(d.Idx, " ", k)] = v
		}
	}
	return r
}

// Temps is the number of uploads not yet ended.
func (c *Cluster) Temps() (n int) {
	for _, d := range c.Servers {
		d.mu.Lock()
		n += len(d.tmps)
		d.mu.Unlock()
	}
	return
}

// Quiet waits until no request is being answered.
func (c *Cluster) Quiet(d time.Duration) bool {
	return Eventually(d, func() bool { return c.Active.Load() == 0 })
}

// Eventually waits until cond holds.
func Eventually(d time.Duration, cond func() bool) bool {
	for end := time.Now().Add(d); ; time.Sleep(time.Millisecond) {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return cond()
		}
	}
}

// Objects of this server.
func (d *DataServer) Objects() map[string]*Stored {
	d.mu.Lock()
	defer d.mu.Unlock()
	r := map[string]*Stored{}
	for k, v := range d.objs {
		r[k] = v
	}
	return r
}

// Object of this server or nil.
func (d *DataServer) Object(name string) *Stored {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.objs[name]
}

// Lose removes an object.
func (d *DataServer) Lose(name string) bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	_, ok := d.objs[name]
	delete(d.objs, name)
	return ok
}

func (d *DataServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	d.cl.Active.Add(1)
	defer d.cl.Active.Add(-1)
	kind, name, _ := strings.Cut(strings.TrimPrefix(r.URL.Path, "/"), "/")
	op := strings.ToLower(r.Method) + " " + kind
	f := d.cl.faultOf(d, op, name)
	fail := func() {
		if f.Reset {
			panic(http.ErrAbortHandler)
		}
		w.WriteHeader(f.Status)
	}
	if (f.Status != 0 || f.Reset) && !f.Late {
		fail()
		return
	}
	var out http.ResponseWriter = w
	if f.Status != 0 || f.Reset {
		out = &devNull{h: http.Header{}}
	}
	d.serve(op, name, f, out, r)
	if f.Status != 0 || f.Reset {
		fail()
	}
}

type devNull struct{ h http.Header }

func (n *devNull) Header() http.Header         { return n.h }
func (n *devNull) Write(b []byte) (int, error) { return len(b), nil }
func (n *devNull) WriteHeader(int)             {}

func (d *DataServer) serve(op, name string, f Fault, w http.ResponseWriter, r *http.Request) {
	comp := r.URL.Query().Get("compress") == "true"
	switch op {
	case "get ping":
	case "get stat":
		d.mu.Lock()
		defer d.mu.Unlock()
		w.Header().Set("Capacity", strconv.FormatInt(d.cap, 10))
		w.Header().Set("Weighted-IO", strconv.FormatInt(d.io, 10))
	case "post temp":
		if r.Header.Get("Size") == "" {
			w.WriteHeader(http.StatusInternalServerError)
			return
		}
		id := fmt.Sprintf("TempInfo_%d", d.cl.seq.Add(1))
		d.mu.Lock()
		d.tmps[id] = &upload{name: name}
		d.mu.Unlock()
		_, _ = io.WriteString(w, id)
	case "patch temp":
		bt, err := io.ReadAll(r.Body)
		d.mu.Lock()
		defer d.mu.Unlock()
		t := d.tmps[name]
		if t == nil {
			w.WriteHeader(http.StatusNotFound)
			return
		}
		if r.ContentLength <= 0 || err != nil {
			w.WriteHeader(http.StatusBadRequest)
			return
		}
		t.data = append(t.data, bt...)
	case "delete temp":
		d.mu.Lock()
		defer d.mu.Unlock()
		delete(d.tmps, name)
	case "head temp":
		d.mu.Lock()
		defer d.mu.Unlock()
		t := d.tmps[name]
		if t == nil {
			w.WriteHeader(http.StatusNotFound)
			return
		}
		w.Header().Set("Size", strconv.Itoa(len(t.data)))
	case "get temp":
		d.mu.Lock()
		t := d.tmps[name]
		d.mu.Unlock()
		size, _ := strconv.Atoi(r.Header.Get("Size"))
		if t == nil || size < 1 {
			w.WriteHeader(http.StatusBadRequest)
			return
		}
		d.send(w, t.data, 0, size, f)
	case "put temp":
		d.mu.Lock()
		defer d.mu.Unlock()
		t := d.tmps[name]
		if t == nil {
			w.WriteHeader(http.StatusNotFound)
			return
		}
		delete(d.tmps, name)
		if d.objs[t.name] == nil {
			d.objs[t.name] = &Stored{Data: t.data, Compress: comp}
		}
	case "head objects":
		if d.Object(name) == nil {
			w.WriteHeader(http.StatusNotFound)
		}
	case "put objects":
		bt, err := io.ReadAll(r.Body)
		if r.ContentLength <= 0 || err != nil {
			w.WriteHeader(http.StatusBadRequest)
			return
		}
		d.mu.Lock()
		defer d.mu.Unlock()
		if d.objs[name] == nil {
			d.objs[name] = &Stored{Data: bt, Compress: comp}
		}
	case "delete objects":
		d.Lose(name)
		w.WriteHeader(http.StatusNoContent)
	case "get objects":
		o := d.Object(name)
		if o == nil {
			w.WriteHeader(http.StatusNotFound)
			return
		}
		size, err := strconv.Atoi(r.Header.Get("Size"))
		if err != nil || size == 0 || (comp && !o.Compress) {
			w.WriteHeader(http.StatusInternalServerError)
			return
		}
		data := o.Data
		if o.Compress && !comp {
			data = append([]byte("compressed:"), data...)
		}
		off := 0
		var rg request.Range
		if rg.ConvertFrom(r.Header.Get("Range")) {
			off = int(rg.FirstBytes().First)
		}
		d.send(w, data, off, size, f)
	default:
		w.WriteHeader(http.StatusNotImplemented)
	}
}

// send answers with size bytes from off on, followed by padding up to the next block.
func (d *DataServer) send(w http.ResponseWriter, data []byte, off, size int, f Fault) {
	if d.cl.Pad && len(data)%4096 > 0 {
		data = append(append([]byte(nil), data...), make([]byte, 4096-len(data)%4096)...)
	}
	if off > len(data) {
		off = len(data)
	}
	data = data[off:]
	if size < len(data) {
		data = data[:size]
	}
	if f.Cut > 0 && f.Cut < len(data) {
		_, _ = w.Write(data[:f.Cut])
		if fl, ok := w.(http.Flusher); ok {
			fl.Flush()
		}
		panic(http.ErrAbortHandler)
	}
	if f.Short > 0 && f.Short < len(data) {
		data = data[:f.Short]
	}
	_, _ = w.Write(data)
}

// RoundRobin chooses servers in the order of their numbers.
type RoundRobin struct {
	cl   *Cluster
	mu   sync.Mutex
	next int
}

var _ selector.Selector = (*RoundRobin)(nil)

// Pop one.
func (r *RoundRobin) Pop(ds []string) ([]string, string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	sort.Slice(ds, func(i, j int) bool { return r.idx(ds[i]) < r.idx(ds[j]) })
	i := r.next % len(ds)
	r.next++
	ip := ds[i]
	return append(append([]string(nil), ds[:i]...), ds[i+1:]...), ip
}

func (r *RoundRobin) idx(addr string) int {
	if d := r.cl.At(addr); d != nil {
		return d.Idx
	}
	return -1
}

// Select one.
func (r *RoundRobin) Select(ds []string) string {
	_, ip := r.Pop(append([]string(nil), ds...))
	return ip
}

// Strategy has a name of its own.
func (r *RoundRobin) Strategy() selector.SelectStrategy { return "round-robin" }

// Set which is next.
func (r *RoundRobin) Set(i int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.next = i
}

// Content makes bytes that are not all alike; no two contents of 16 bytes and more are the same.
func Content(seed int64, size int) []byte {
	r := rand.New(rand.NewSource(seed))
	b := make([]byte, size)
	for i := 0; i < size; {
		n := 1 + r.Intn(600)
		if i+n > size {
			n = size - i
		}
		if r.Intn(3) == 0 {
			v := byte(1 + r.Intn(255))
			for j := i; j < i+n; j++ {
				b[j] = v
			}
		} else {
			r.Read(b[i : i+n])
		}
		i += n
	}
	if size >= 16 {
		r.Read(b[size-12:])
	}
	if size > 0 {
		b[0] |= 1
		b[size-1] |= 1
	}
	return b
}

// Digest of a content as clients send it.
func Digest(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:])
}

// ErrBroken is the error of a Broken body.
var ErrBroken = errors.New("body broke off")

// Pieces is a body arriving in pieces of the given sizes (the last one repeats), ending with Err or io.EOF.
type Pieces struct {
	Data []byte
	Cut  []int
	Err  error
	n    int
}

func (p *Pieces) Read(b []byte) (int, error) {
	if len(p.Data) == 0 {
		if p.Err != nil {
			return 0, p.Err
		}
		return 0, io.EOF
	}
	n := len(p.Data)
	if len(p.Cut) > 0 {
		n = p.Cut[p.n%len(p.Cut)]
		p.n++
	}
	if n > len(p.Data) {
		n = len(p.Data)
	}
	n = copy(b, p.Data[:n])
	p.Data = p.Data[n:]
	return n, nil
}
