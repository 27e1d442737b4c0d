// Package verife2e runs the servers' programs against an in-memory etcd, for the property checks.
package verife2e

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verifharness/fakeetcd"
)

// Group of all servers.
const Group = "e2e"

// Proc is a server of its own process.
type Proc struct {
	Kind, ID string
	Addr     string
	dir      string
	conf     string
	env      []string
	cmd      *exec.Cmd
	done     chan struct{}
	log      string
	port     int
	reserved net.PacketConn
	served   bool
	// Mounts of a data server
	Mounts []string
	// Spare metadata servers belong to no group at first
	Spare bool
}

// Options of a cluster.
type Options struct {
	Metas, Datas, APIs, Disks int
	// Raft makes all metadata servers one group.
	Raft bool
	// Spares are how many of them, the last ones, are no members at first. Servers keep their configuration then.
	Spares int
	API    string // more of its configuration
}

// Cluster of servers.
type Cluster struct {
	Etcd   *fakeetcd.Store
	etcd   string
	stop   func()
	dir    string
	opt    Options
	Metas  []*Proc
	Datas  []*Proc
	APIs   []*Proc
	client *http.Client
	port   *rand.Rand
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Eventually waits for ok.
func Eventually(d time.Duration, ok func() bool) bool {
	end := time.Now().Add(d)
	for !ok() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(5 * time.Millisecond)
	}
	return true
}

// NewCluster starts everything in a new directory under dir.
func NewCluster(dir string, opt Options) *Cluster {
	c := &Cluster{Etcd: fakeetcd.New(), dir: dir, opt: opt}
	c.port = rand.New(rand.NewSource(time.Now().UnixNano() ^ int64(os.Getpid())<<20))
	c.client = &http.Client{Timeout: 2 * time.Minute, Transport: &http.Transport{MaxIdleConnsPerHost: 50}}
	var err error
	c.etcd, c.stop, err = c.Etcd.Serve()
	must(err)
	if opt.Disks == 0 {
		opt.Disks = 1
	}
	for i := 0; i < opt.Metas; i++ {
		p := c.proc("metaserver", fmt.Sprint("m", i))
		p.Spare = i >= opt.Metas-opt.Spares
		c.Metas = append(c.Metas, p)
	}
	for i := 0; i < opt.Datas; i++ {
		p := c.proc("objectserver", fmt.Sprint("d", i))
		for k := 0; k < opt.Disks; k++ {
			p.Mounts = append(p.Mounts, filepath.Join(p.dir, fmt.Sprint("disk", k)))
		}
		c.Datas = append(c.Datas, p)
	}
	for i := 0; i < opt.APIs; i++ {
		c.APIs = append(c.APIs, c.proc("apiserver", fmt.Sprint("a", i)))
	}
	if opt.Raft {
		// every member names all others from the start
		for _, p := range c.Metas {
			c.freePort(p)
		}
	}
	var wait []func()
	for _, p := range c.all() {
		wait = append(wait, c.launch(p))
	}
	for _, f := range wait {
		f()
	}
	return c
}

func (c *Cluster) all() (r []*Proc) {
	r = append(r, c.Metas...)
	r = append(r, c.Datas...)
	return append(r, c.APIs...)
}

func (c *Cluster) proc(kind, id string) *Proc {
	p := &Proc{Kind: kind, ID: id, dir: filepath.Join(c.dir, kind+"-"+id)}
	must(os.MkdirAll(p.dir, 0o700))
	p.conf = filepath.Join(p.dir, "conf.yaml")
	p.log = filepath.Join(p.dir, "log")
	return p
}

// freePort for p. The UDP port of the same number stays taken, it tells clusters of other processes.
func (c *Cluster) freePort(p *Proc) {
	for {
		n := 10000 + c.port.Intn(20000)
		u, err := net.ListenPacket("udp", fmt.Sprint("127.0.0.1:", n))
		if err != nil {
			continue
		}
		l, err := net.Listen("tcp", fmt.Sprint(":", n))
		if err != nil {
			_ = u.Close()
			continue
		}
		_ = l.Close()
		if p.reserved != nil {
			_ = p.reserved.Close()
		}
		p.port, p.reserved = n, u
		p.Addr = fmt.Sprint("127.0.0.1:", n)
		return
	}
}

func (c *Cluster) configure(p *Proc, port int) {
	var b strings.Builder
	fmt.Fprintf(&b, "port: \"%d\"\nlog:\n  level: info\netcd:\n  endpoint: [%q]\n  username: u\n  password: p\n", port, c.etcd)
	fmt.Fprintf(&b, "registry:\n  group: %s\n  name: %s\n  server-ip: 127.0.0.1\n  server-id: %s\n", Group, p.Kind, p.ID)
	switch p.Kind {
	case "metaserver":
		fmt.Fprintf(&b, "data-dir: %q\n", filepath.Join(p.dir, "data"))
		must(os.MkdirAll(filepath.Join(p.dir, "data", p.ID), 0o700))
		n := len(c.Metas)
		for i, m := range c.Metas {
			if m == p {
				if c.opt.Raft {
					i, n = 0, 1
				}
				fmt.Fprintf(&b, "hash-slot:\n  slots: [\"%d-%d\"]\n", 16384*i/n, 16384*(i+1)/n)
			}
		}
		if c.opt.Raft {
			fmt.Fprintf(&b, "cluster:\n  enable: true\n  bootstrap: %t\n  group-id: g0\n  election-timeout: 600ms\n  heartbeat-timeout: 600ms\n", !p.Spare)
			if !p.Spare {
				b.WriteString("  nodes:\n")
				for _, m := range c.Metas {
					if !m.Spare {
						fmt.Fprintf(&b, "    - \"%s,%s\"\n", m.ID, m.Addr)
					}
				}
			}
		}
	case "objectserver":
		var info strings.Builder
		for i, m := range p.Mounts {
			must(os.MkdirAll(m, 0o700))
			fmt.Fprintf(&info, "%d 1 8:%d / %s rw - ext4 /dev/verif%d rw\n", 36+i, i, m, i)
		}
		f := filepath.Join(p.dir, "mountinfo")
		must(os.WriteFile(f, []byte(info.String()), 0o600))
		p.env = []string{"HOST_PROC_MOUNTINFO=" + f}
		fmt.Fprintf(&b, "base-mount-point: %q\nstorage-path: /objects\n", p.Mounts[0])
	case "apiserver":
		b.WriteString(c.opt.API)
	}
	must(os.WriteFile(p.conf, []byte(b.String()), 0o600))
}

// launch p, the returned function waits until it serves. It keeps its address once it has served.
func (c *Cluster) launch(p *Proc) func() {
	first := p.port == 0
	start := func() bool {
		if first {
			c.freePort(p)
		}
		if !p.served || c.opt.Spares == 0 {
			c.configure(p, p.port)
		}
		f, err := os.OpenFile(p.log, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o600)
		must(err)
		p.cmd = exec.Command(filepath.Join(os.Getenv("VERIF_BIN"), p.Kind), "app", p.conf)
		p.cmd.Dir = p.dir
		p.cmd.Stdout, p.cmd.Stderr = f, f
		p.cmd.Env = append(append(os.Environ(), "SERVER_IP=127.0.0.1"), p.env...)
		p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		must(p.cmd.Start())
		done := make(chan struct{})
		p.done = done
		cmd := p.cmd
		go func() { _ = cmd.Wait(); _ = f.Close(); close(done) }()
		return true
	}
	start()
	return func() {
		for try := 0; ; try++ {
			ok := Eventually(60*time.Second, func() bool {
				if !p.Alive() {
					return true
				}
				return c.serves(p)
			})
			if ok && p.Alive() {
				p.served = true
				return
			}
			time.Sleep(time.Duration(try) * 100 * time.Millisecond)
			if try == 10 {
				panic(fmt.Sprintf("%s %s does not start:\n%s", p.Kind, p.ID, p.Tail()))
			}
			p.Kill()
			start()
		}
	}
}

// key a server is registered as.
func (c *Cluster) registered(p *Proc) bool {
	for _, suffix := range []string{"", "_master", "_slave"} {
		if v, ok := c.Etcd.Value(Group + "/registry/" + p.Kind + "/" + p.ID + suffix); ok && v == p.Addr {
			return true
		}
	}
	return false
}

func (c *Cluster) serves(p *Proc) bool {
	conn, err := net.Dial("tcp", p.Addr)
	if err != nil {
		return false
	}
	_ = conn.Close()
	return c.registered(p)
}

// Leader of the metadata servers' group, or nil.
func (c *Cluster) Leader() *Proc {
	for _, p := range c.Metas {
		if v, ok := c.Etcd.Value(Group + "/registry/" + p.Kind + "/" + p.ID + "_master"); ok && v == p.Addr && p.Alive() {
			return p
		}
	}
	return nil
}

// Alive says whether the process runs.
func (p *Proc) Alive() bool {
	select {
	case <-p.done:
		return false
	default:
		return true
	}
}

// Tail of its output.
func (p *Proc) Tail() string {
	bt, _ := os.ReadFile(p.log)
	if len(bt) > 6000 {
		bt = bt[len(bt)-6000:]
	}
	return string(bt)
}

// Kill it at once.
func (p *Proc) Kill() {
	_ = p.cmd.Process.Kill()
	<-p.done
}

// Crash p: it stops at once and its registration ends.
func (c *Cluster) Crash(p *Proc) {
	p.Kill()
	for _, suffix := range []string{"", "_master", "_slave"} {
		c.Etcd.Expire(Group + "/registry/" + p.Kind + "/" + p.ID + suffix)
	}
}

// Stop p gracefully.
func (c *Cluster) Stop(p *Proc) error {
	_ = p.cmd.Process.Signal(syscall.SIGTERM)
	select {
	case <-p.done:
		return nil
	case <-time.After(60 * time.Second):
		p.Kill()
		return fmt.Errorf("%s %s does not stop:\n%s", p.Kind, p.ID, p.Tail())
	}
}

// Start p again.
func (c *Cluster) Start(p *Proc) { c.launch(p)() }

// Wipe what a stopped data server stores.
func (p *Proc) Wipe() {
	for _, m := range p.Mounts {
		must(os.RemoveAll(m))
	}
}

// Has says whether a file of the name is stored.
func (p *Proc) Has(name string) (ok bool) {
	for _, m := range p.Mounts {
		_ = filepath.Walk(m, func(path string, info os.FileInfo, err error) error {
			ok = ok || err == nil && !info.IsDir() && info.Name() == name
			return nil
		})
	}
	return
}

// Remove the files whose names have the prefix, and how many there were.
func (p *Proc) Remove(prefix string) (n int) {
	for _, m := range p.Mounts {
		_ = filepath.Walk(m, func(path string, info os.FileInfo, err error) error {
			if err == nil && !info.IsDir() && strings.HasPrefix(info.Name(), prefix) {
				if os.Remove(path) == nil {
					n++
				}
			}
			return nil
		})
	}
	return
}

// Close stops everything.
func (c *Cluster) Close() {
	for _, p := range c.all() {
		p.Kill()
		_ = p.reserved.Close()
	}
	c.stop()
}

// Answer of the API.
type Answer struct {
	Status int
	Header http.Header
	Body   []byte
	Err    error // the answer broke off
}

func (a Answer) String() string {
	b := a.Body
	if len(b) > 200 {
		b = b[:200]
	}
	return fmt.Sprintf("%d %q (%v)", a.Status, b, a.Err)
}

// Call an API server.
func (c *Cluster) Call(p *Proc, method, path string, q url.Values, h map[string]string, body []byte) Answer {
	u := "http://" + p.Addr + path
	if len(q) > 0 {
		u += "?" + q.Encode()
	}
	var rd io.Reader
	if body != nil {
		rd = bytes.NewReader(body)
	}
	req, err := http.NewRequest(method, u, rd)
	must(err)
	for k, v := range h {
		req.Header.Set(k, v)
	}
	resp, err := c.client.Do(req)
	if err != nil {
		return Answer{Err: err}
	}
	defer resp.Body.Close()
	bt, err := io.ReadAll(resp.Body)
	return Answer{resp.StatusCode, resp.Header, bt, err}
}

// JSON call.
func (c *Cluster) JSON(p *Proc, method, path string, v any) Answer {
	bt, err := json.Marshal(v)
	must(err)
	return c.Call(p, method, path, nil, map[string]string{"Content-Type": "application/json"}, bt)
}

// Digest of a content.
func Digest(b []byte) string {
	s := sha256.Sum256(b)
	return hex.EncodeToString(s[:])
}
