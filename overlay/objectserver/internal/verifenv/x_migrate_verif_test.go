package verifenv

import (
	"bufio"
	"bytes"
	"common/proto/pb"
	"common/util"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"objectserver/internal/usecase/pool"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"google.golang.org/grpc"
	"pgregory.net/rapid"
	"verifharness/vh"
)

// ---- metadata servers

type located struct {
	hash string
	idx  int
	loc  string
}

type metaServer struct {
	addr string
	fail atomic.Int32 // status to answer
	mu   sync.Mutex
	told map[located]bool
	srv  *http.Server
}

func newMetaServer() *metaServer {
	m := &metaServer{told: map[located]bool{}}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	m.addr = ln.Addr().String()
	m.srv = &http.Server{Handler: util.H2CHandler(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var b struct {
			Hash        string `json:"hash"`
			LocateIndex int    `json:"locateIndex"`
			Locate      string `json:"locate"`
		}
		err := json.NewDecoder(r.Body).Decode(&b)
		if s := int(m.fail.Load()); s != 0 {
			w.WriteHeader(s)
			return
		}
		if err != nil || r.Method != "PATCH" || r.URL.Path != "/version/locate" {
			w.WriteHeader(400)
			return
		}
		m.mu.Lock()
		m.told[located{b.Hash, b.LocateIndex, b.Locate}] = true
		m.mu.Unlock()
		w.WriteHeader(200)
	}), nil)}
	go func() { _ = m.srv.Serve(ln) }()
	return m
}

func (m *metaServer) reset(fail int) {
	m.fail.Store(int32(fail))
	m.mu.Lock()
	defer m.mu.Unlock()
	m.told = map[located]bool{}
}

func (m *metaServer) has(l located) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.told[l]
}

type metas []*metaServer

func newMetas(n int) (ms metas) {
	for i := 0; i < n; i++ {
		ms = append(ms, newMetaServer())
	}
	return
}

func (ms metas) close() {
	for _, m := range ms {
		_ = m.srv.Close()
	}
}

func (ms metas) mapping() map[string]string {
	r := map[string]string{}
	for i, m := range ms {
		r["m"+strconv.Itoa(i)] = m.addr
	}
	return r
}

// ---- one server receives

func dial(addr string) (pb.ObjectMigrationClient, *grpc.ClientConn) {
	cc, err := grpc.Dial(addr, grpc.WithInsecure())
	must(err)
	return pb.NewObjectMigrationClient(cc), cc
}

// outside lists what is under root but not in the storage of a disk.
func outside(n *Node) []string {
	var r []string
	_ = filepath.Walk(n.Root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if info.IsDir() && strings.HasPrefix(info.Name(), "path-cache") {
			return filepath.SkipDir
		}
		for i := range n.Mounts {
			if p == n.Storage(i) {
				return filepath.SkipDir
			}
		}
		r = append(r, fmt.Sprint(p, " ", info.IsDir(), info.Mode()))
		return nil
	})
	return r
}

// inside fails if storage holds directories.
func dirsInside(n *Node) (r []string) {
	for i := range n.Mounts {
		es, _ := os.ReadDir(n.Storage(i))
		for _, e := range es {
			if e.IsDir() {
				r = append(r, e.Name())
			}
		}
	}
	return
}

func genFileName(t *rapid.T, plain string) string {
	return rapid.OneOf(
		rapid.Just(plain), rapid.Just(plain), rapid.Just(plain),
		rapid.SampledFrom([]string{"../" + plain, "../../" + plain, "../../../" + plain, "../../../../" + plain, "..", ".", "", "/" + plain, "/../" + plain, plain + "/", "sub/" + plain, "sub/../" + plain,
			"./" + plain, "TempInfo_" + plain, "../self_store/" + plain, "../mountinfo", "../../../../mountinfo", plain + "/..", "//" + plain, "..\\" + plain, " " + plain}),
	).Draw(t, "file name")
}

func TestVerif_O06_receiver(t *testing.T) {
	n := node(t, 3)
	ms := newMetas(3)
	defer ms.close()
	cli, cc := dial(n.Addr)
	defer cc.Close()
	vh.Check(t, vh.N(400, 12000), "histories of transfers to a receiving server: any chunks, claimed sizes (true or not), streams that break off, disks that are full, repeated transfers, leftovers of other sizes, "+
		"names that point elsewhere (only within the scratch directory), then finishing with metadata servers that fail or not; while a stream is open the object must not be visible; contents, files, capacity, files outside the storage and what the metadata servers were told "+
		"are compared with a model; non-trivial: a successful and a refused transfer", func(t *rapid.T, c *vh.Case) {
		w := newWorld(n, t, c)
		n.Disc.mu.Lock()
		n.Disc.Serv["metaserver"] = ms.mapping()
		n.Disc.mu.Unlock()
		before := strings.Join(outside(n), "\n")
		good, refused := 0, 0
		canon := map[string][]byte{} // the only content of its size that a name has
		for k := rapid.IntRange(1, 8).Draw(t, "transfers"); k > 0; k-- {
			plain := w.name()
			name := genFileName(t, plain)
			valid := name != "" && name != "." && name != ".." && !strings.Contains(name, "/") && !strings.HasPrefix(name, "TempInfo_")
			data := canon[name]
			if data == nil || rapid.IntRange(0, 4).Draw(t, "other") == 0 {
				data = w.content("size")
				if old := w.objs[name]; old != nil && len(old.data) == len(data) {
					data = old.data
				}
			}
			size := int64(len(data))
			mode := rapid.SampledFrom([]string{"ok", "ok", "ok", "short", "long", "cancel", "full", "no data"}).Draw(t, "mode")
			switch mode {
			case "short":
				size += int64(rapid.IntRange(1, 5000).Draw(t, "missing"))
			case "long":
				size -= int64(rapid.IntRange(1, len(data)).Draw(t, "excess"))
			}
			was := w.objs[name]
			same := was != nil && int64(len(was.data)) == size
			w.pick()
			c.Logf("receive %q %dB of %d, %s", name, len(data), size, mode)
			ctx, cancel := context.WithCancel(context.Background())
			stream, err := cli.ReceiveData(ctx)
			must(err)
			send := func() {
				if mode == "no data" {
					return
				}
				for p := 0; p < len(data); {
					l := rapid.OneOf(rapid.IntRange(1, 5000), rapid.IntRange(1, len(data))).Draw(t, "chunk")
					if p+l > len(data) {
						l = len(data) - p
					}
					if mode == "cancel" && p+l == len(data) {
						if l--; l == 0 {
							break
						}
					}
					if err := stream.Send(&pb.ObjectData{FileName: name, Size: size, Data: data[p : p+l]}); err != nil {
						return // the answer says why
					}
					if p == 0 && valid && !same && rapid.IntRange(0, 3).Draw(t, "look") == 0 {
						// what was there stays until all is received
						w.head(name)
						if was != nil {
							w.getRange(name, 0, int64(len(was.data)+1))
						}
					}
					if p += l; mode == "cancel" && p == len(data)-1 {
						break
					}
				}
			}
			var resp *pb.Response
			switch mode {
			case "full":
				Limited(int64(rapid.IntRange(0, len(data)).Draw(t, "max")), func() {
					send()
					resp, err = stream.CloseAndRecv()
				})
			case "cancel":
				send()
				cancel()
				_, err = stream.CloseAndRecv()
				if err == nil {
					err = errors.New("cancelled")
				}
				// the handler ends on its own
				ok := Eventually(func() bool { _, temps := n.Files(); return len(temps) == 0 })
				if !ok {
					w.failf("temporary files stay after a cancelled transfer of %q", name)
				}
			default:
				send()
				resp, err = stream.CloseAndRecv()
			}
			cancel()
			ok := err == nil && resp.GetSuccess()
			switch {
			case !valid && ok:
				w.failf("a file named %q was received", name)
			case same && mode != "no data":
				// it has it already
				if valid && !ok && mode != "cancel" && mode != "full" {
					w.failf("%q of %d bytes is there already: %v, %v", name, size, resp, err)
				}
			case ok && mode != "ok" && mode != "full":
				w.failf("transfer of %q (%d bytes of %d, %s) succeeds", name, len(data), size, mode)
			case !ok && mode == "ok" && valid:
				w.failf("transfer of %q (%d bytes) fails: %v, %v", name, size, resp, err)
			case ok:
				w.objs[name] = &object{data: data}
				canon[name] = data
				if !contains(w.names, name) {
					w.names = append(w.names, name)
				}
			}
			if ok {
				good++
			} else {
				refused++
			}
			if d := dirsInside(n); len(d) > 0 {
				w.failf("directories %q in the storage", d)
			}
			// finish
			var fails int
			for i, m := range ms {
				s := rapid.SampledFrom([]int{0, 0, 0, 500, 404, 403}).Draw(t, "meta "+strconv.Itoa(i))
				m.reset(s)
				if s != 0 && s != 404 {
					fails++
				}
			}
			info := &pb.ObjectInfo{FileName: name, Size: size, OriginLocate: "127.0.0.1:1"}
			fin, err := cli.FinishReceive(context.Background(), info)
			must(err)
			o := w.objs[name]
			there := valid && o != nil && int64(len(o.data)) == size
			if fin.Success && !there {
				w.failf("%q of %d bytes is finished, but not there", name, size)
			}
			if there && !fin.Success && fails < 2 {
				w.failf("%q of %d bytes is there and %d of 3 metadata servers fail: %v", name, size, fails, fin)
			}
			if fin.Success && fails >= 2 {
				w.failf("%q of %d bytes is finished while %d of 3 metadata servers fail", name, size, fails)
			}
			if fin.Success {
				i := strings.LastIndexByte(name, '.')
				idx, err := strconv.Atoi(name[i+1:])
				for j, m := range ms {
					if err == nil && m.fail.Load() == 0 && !m.has(located{name[:i], idx, Self}) {
						w.failf("%q is finished, metadata server %d was told %v", name, j, m.told)
					}
				}
			}
		}
		if after := strings.Join(outside(n), "\n"); after != before {
			w.failf("outside of the storage there was:\n%s\nnow:\n%s", before, after)
		}
		w.checkAll()
		if good > 0 && refused > 0 {
			c.NonTrivial()
		}
	})
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// ---- one server sends

type receiver struct {
	pb.UnimplementedObjectMigrationServer
	addr   string
	srv    *grpc.Server
	mu     sync.Mutex
	plan   map[string]string
	got    map[string][]byte // finished
	part   map[string][]byte
	tried  map[string]int64 // sizes claimed
	origin string
	bad    []string
}

func newReceiver() *receiver {
	r := &receiver{srv: grpc.NewServer()}
	pb.RegisterObjectMigrationServer(r.srv, r)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	r.addr = ln.Addr().String()
	go func() { _ = r.srv.Serve(ln) }()
	return r
}

func (r *receiver) reset(plan map[string]string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.plan, r.got, r.part, r.tried, r.bad = plan, map[string][]byte{}, map[string][]byte{}, map[string]int64{}, nil
}

func (r *receiver) ReceiveData(s pb.ObjectMigration_ReceiveDataServer) error {
	var data []byte
	name, plan := "", ""
	for i := 0; ; i++ {
		d, err := s.Recv()
		if err == io.EOF {
			break
		}
		if err != nil {
			return err
		}
		r.mu.Lock()
		if i == 0 {
			name, plan = d.FileName, r.plan[d.FileName]
			if _, twice := r.tried[name]; twice {
				r.bad = append(r.bad, name+" is sent twice")
			}
			r.tried[name] = d.Size
			if strings.HasPrefix(name, "TempInfo_") {
				r.bad = append(r.bad, name+" is sent")
			}
		} else if d.FileName != name || d.Size != r.tried[name] {
			r.bad = append(r.bad, fmt.Sprintf("a chunk of %q in the stream of %q", d.FileName, name))
		}
		r.mu.Unlock()
		data = append(data, d.Data...)
		switch plan {
		case "refuse first":
			return s.SendAndClose(&pb.Response{Success: false, Message: "refused"})
		case "error first":
			return errors.New("broken")
		case "exists":
			return s.SendAndClose(&pb.Response{Success: true})
		}
	}
	switch plan {
	case "refuse last":
		return s.SendAndClose(&pb.Response{Success: false, Message: "refused"})
	case "error last":
		return errors.New("broken")
	}
	r.mu.Lock()
	r.part[name] = data
	r.mu.Unlock()
	return s.SendAndClose(&pb.Response{Success: true})
}

func (r *receiver) FinishReceive(_ context.Context, info *pb.ObjectInfo) (*pb.Response, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	switch r.plan[info.FileName] {
	case "finish refused":
		return &pb.Response{Success: false, Message: "refused"}, nil
	case "finish error":
		return nil, errors.New("broken")
	case "exists":
		r.got[info.FileName] = nil
		return &pb.Response{Success: true}, nil
	}
	d, ok := r.part[info.FileName]
	if !ok || int64(len(d)) != info.Size || info.Size != r.tried[info.FileName] {
		r.bad = append(r.bad, fmt.Sprintf("finish of %q, %d bytes, %d bytes were received", info.FileName, info.Size, len(d)))
		return &pb.Response{Success: false, Message: "not received"}, nil
	}
	r.got[info.FileName] = d
	return &pb.Response{Success: true}, nil
}

// stock stores objects of one size each (so that names carry the size they have) on the server.
func (w *world) stock(max int) {
	if rapid.IntRange(0, 5).Draw(w.t, "empty") == 3 {
		// an object without content, as an upload whose only part broke off leaves
		name := fmt.Sprintf("m%d-empty.0", caseNo)
		must(os.WriteFile(filepath.Join(w.n.Storage(rapid.IntRange(0, len(w.n.Mounts)-1).Draw(w.t, "disk")), name), nil, 0o600))
		w.n.Restart()
		w.names = append(w.names, name)
		w.objs[name] = &object{data: []byte{}}
		w.c.Class("empty object")
	}
	if rapid.IntRange(0, 5).Draw(w.t, "equal") == 0 {
		n := w.size("size")
		for i := rapid.IntRange(2, max).Draw(w.t, "objects"); i > 0; i-- {
			name := fmt.Sprintf("m%d-%d.%d", caseNo, i, i%7)
			w.names = append(w.names, name)
			w.put(name, Content(int64(caseNo*1000+i), n), false)
		}
		w.c.Class("objects of one size")
		return
	}
	for i := rapid.IntRange(1, max).Draw(w.t, "objects"); i > 0; i-- {
		name := fmt.Sprintf("m%d-%d.%d", caseNo, i, i%7)
		w.names = append(w.names, name)
		if rapid.IntRange(0, 3).Draw(w.t, "by upload") == 0 {
			w.pick()
			r := w.n.Do("POST", "/temp/"+url.PathEscape(name), nil, "Size", "1")
			w.ups = append(w.ups, &upload{id: string(r.Body), name: name})
			w.patch(len(w.ups)-1, w.content("size"))
			w.commit(len(w.ups)-1, rapid.Bool().Draw(w.t, "compress"))
			continue
		}
		w.put(name, w.content("size"), rapid.Bool().Draw(w.t, "compress"))
	}
}

func (w *world) disk() map[string][]byte {
	r := map[string][]byte{}
	objects, _ := w.n.Files()
	for _, f := range objects {
		bt, err := os.ReadFile(f.Path)
		must(err)
		r[f.Name] = bt
	}
	return r
}

func TestVerif_O06_sender(t *testing.T) {
	n := node(t, 3)
	rs := []*receiver{newReceiver(), newReceiver(), newReceiver()}
	for _, r := range rs {
		defer r.srv.Stop()
	}
	plans := []string{"", "", "", "exists", "refuse first", "error first", "refuse last", "error last", "finish refused", "finish error"}
	vh.Check(t, vh.N(250, 8000), "a server with 1-12 objects (plain and compressed, 1 byte to 300 KB) and open uploads on 3 disks sends to 1-3 receivers that refuse or fail for some objects at the first chunk, the last chunk or the end; afterwards each object is where it was "+
		"accepted, byte for byte, and no longer here, or still here; what was tried is not less and not more than asked for; non-trivial: some accepted, some failed, or only part asked for", func(t *rapid.T, c *vh.Case) {
		w := newWorld(n, t, c)
		w.names = nil
		w.big = rapid.IntRange(0, 4).Draw(t, "big") == 0
		w.stock(12)
		var open []int
		for i := rapid.IntRange(0, 2).Draw(t, "open uploads"); i > 0; i-- {
			w.pick()
			r := n.Do("POST", "/temp/u.1", nil, "Size", "1")
			w.ups = append(w.ups, &upload{id: string(r.Body), name: "u.1"})
			w.patch(len(w.ups)-1, w.content("part"))
			open = append(open, i)
		}
		was := w.disk()
		faulty := rapid.Bool().Draw(t, "faulty")
		plan := map[string]string{}
		for _, name := range w.names {
			if faulty {
				plan[name] = rapid.SampledFrom(plans).Draw(t, "plan")
			}
		}
		sizes := map[string]int64{}
		used := rs[:rapid.IntRange(1, 3).Draw(t, "receivers")]
		for _, r := range rs {
			r.reset(plan)
		}
		var all int64
		for _, b := range was {
			all += int64(len(b))
		}
		var asked int64
		for _, r := range used {
			sizes[r.addr] = int64(rapid.OneOf(rapid.IntRange(1, 1+int(all)), rapid.Just(1<<30)).Draw(t, "required"))
			if len(was) > 0 && rapid.IntRange(0, 3).Draw(t, "whole objects") == 0 {
				// exactly the size of some
				sizes[r.addr] = 0
				for _, k := range vh.Keys(was)[:rapid.IntRange(1, len(was)).Draw(t, "of")] {
					sizes[r.addr] += int64(len(was[k]))
				}
				if sizes[r.addr] == 0 {
					sizes[r.addr] = 1
				}
			}
			asked += sizes[r.addr]
		}
		c.Logf("plan %v, ask %v of %d", plan, sizes, all)
		err := n.Migration.SendingTo(Self, sizes)
		now := w.disk()
		failed, moved := 0, 0
		var tried int64
		for _, r := range used {
			r.mu.Lock()
			if len(r.bad) > 0 {
				w.failf("%s: %s", r.addr, strings.Join(r.bad, "; "))
			}
			var sum, max int64
			for _, s := range r.tried {
				sum += s
				if s > max {
					max = s
				}
			}
			if sum-max >= sizes[r.addr] {
				w.failf("%d bytes were asked for, objects of %d bytes are sent, the largest has %d", sizes[r.addr], sum, max)
			}
			tried += sum
			r.mu.Unlock()
		}
		if asked > all {
			asked = all
		}
		if tried < asked {
			w.failf("objects of %d bytes were to be sent, %d bytes were tried", asked, tried)
		}
		for _, name := range w.names {
			sent, got := false, false
			for _, r := range used {
				r.mu.Lock()
				if _, ok := r.tried[name]; ok {
					if sent {
						w.failf("%s is sent to two servers", name)
					}
					sent = true
				}
				if d, ok := r.got[name]; ok {
					got = true
					if d != nil && !bytes.Equal(d, was[name]) {
						w.failf("%s arrived with %d bytes, it has %d: the content differs", name, len(d), len(was[name]))
					}
				}
				r.mu.Unlock()
			}
			left, here := now[name]
			switch {
			case got && here:
				w.failf("%s was moved and is still here", name)
			case !got && (!here || !bytes.Equal(left, was[name])):
				w.failf("%s was not moved (sent: %v) and is not here any more", name, sent)
			case sent && !got:
				failed++
			}
			if got {
				moved++
				delete(w.objs, name)
			}
		}
		if (err != nil) != (failed > 0) {
			w.failf("%d transfers failed, SendingTo says %v", failed, err)
		}
		w.checkAll()
		if moved > 0 && (failed > 0 || moved+failed < len(w.names)) {
			c.NonTrivial()
		}
	})
}

// ---- servers in processes of their own

// TestMain also is the other server's main.
func TestMain(m *testing.M) {
	if root := os.Getenv("VERIF_CHILD"); root != "" {
		child(root)
		os.Exit(0)
	}
	os.Exit(m.Run())
}

type control struct {
	Reset bool
	Serv  map[string]map[string]string
}

func child(root string) {
	n := New(root, 2)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	pool.OnOpen(func() {})
	go func() {
		_ = http.Serve(ln, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			var c control
			must(json.NewDecoder(r.Body).Decode(&c))
			n.Disc.mu.Lock()
			n.Disc.Serv = c.Serv
			n.Disc.mu.Unlock()
			if c.Reset {
				n.Reset()
			}
			fmt.Fprint(w, pool.ObjectCap.Capacity())
		}))
	}()
	fmt.Printf("CHILD %s %s\n", n.Addr, ln.Addr())
	// ends with its parent
	_, _ = io.Copy(io.Discard, os.Stdin)
}

type peer struct {
	*Node // only to look at its files and ask it
	ctl   string
	cmd   *exec.Cmd
	in    io.Closer
}

func startPeer(t *testing.T, root string) *peer {
	must(os.MkdirAll(root, 0o700))
	cmd := exec.Command(os.Args[0], "-test.run=^$")
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+root, "VERIF_OUT=")
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	must(err)
	out, err := cmd.StdoutPipe()
	must(err)
	must(cmd.Start())
	rd := bufio.NewReader(out)
	p := &peer{cmd: cmd, in: in, Node: &Node{Root: root, client: &http.Client{}}}
	for {
		l, err := rd.ReadString('\n')
		if err != nil {
			t.Fatalf("the other server did not start: %v", err)
		}
		if f := strings.Fields(l); len(f) == 3 && f[0] == "CHILD" {
			p.Addr, p.ctl = f[1], f[2]
			break
		}
	}
	go func() { _, _ = io.Copy(io.Discard, rd) }()
	for i := 0; i < 2; i++ {
		p.Mounts = append(p.Mounts, filepath.Join(root, "disks", "d"+strconv.Itoa(i)))
	}
	t.Cleanup(func() { _ = in.Close(); _ = cmd.Wait() })
	return p
}

func (p *peer) control(c control) int64 {
	bt, err := json.Marshal(c)
	must(err)
	resp, err := http.Post("http://"+p.ctl, "application/json", bytes.NewReader(bt))
	must(err)
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	must(err)
	v, err := strconv.ParseInt(string(b), 10, 64)
	must(err)
	return v
}

// proxy passes connections on to a server and cuts each after some bytes.
type proxy struct {
	addr string
	to   string
	mu   sync.Mutex
	cuts []int // bytes to the server until the cut, per connection; none left: never
	ln   net.Listener
}

func newProxy(to string) *proxy {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	p := &proxy{addr: ln.Addr().String(), to: to, ln: ln}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go p.serve(c)
		}
	}()
	return p
}

func (p *proxy) serve(c net.Conn) {
	defer c.Close()
	s, err := net.Dial("tcp", p.to)
	if err != nil {
		return
	}
	defer s.Close()
	p.mu.Lock()
	cut := -1
	if len(p.cuts) > 0 {
		cut = p.cuts[0]
		p.cuts = p.cuts[1:]
	}
	p.mu.Unlock()
	done := make(chan struct{}, 2)
	go func() {
		if cut >= 0 {
			_, _ = io.CopyN(s, c, int64(cut))
		} else {
			_, _ = io.Copy(s, c)
		}
		done <- struct{}{}
	}()
	go func() { _, _ = io.Copy(c, s); done <- struct{}{} }()
	<-done
}

// readAs reads the object from the server with its size.
func readAs(n *Node, name string, o *object) string {
	r := n.Do("GET", "/objects/"+url.PathEscape(name)+comp(o.comp), nil, "Size", strconv.Itoa(len(o.data)))
	if !r.OK() {
		return r.String()
	}
	return expect(o.data, 0, int64(len(o.data)), r.Body)
}

func TestVerif_O06_servers(t *testing.T) {
	n := node(t, 2)
	pool.OnOpen(func() {})
	n.Disc.Serv["objectserver"]["self"] = n.Addr
	ms := newMetas(1)
	defer ms.close()
	ps := []*peer{startPeer(t, t.TempDir()), startPeer(t, t.TempDir())}
	prox := newProxy(ps[0].Addr)
	defer prox.ln.Close()
	self, cc := dial(n.Addr)
	defer cc.Close()
	vh.Check(t, vh.N(120, 4000), "three servers in their own processes with 0-10 objects each: one sends to another over connections cut after any number of bytes, or leaves, or joins the others, then all is done again without cuts; "+
		"each object is complete on at least one server at any time, never visible incompletely, in the end on exactly one, and the capacities are those of the files; non-trivial: objects moved", func(t *rapid.T, c *vh.Case) {
		w := newWorld(n, t, c)
		w.names = nil
		kind := rapid.SampledFrom([]string{"send", "send", "leave", "join"}).Draw(t, "kind")
		c.Class(kind)
		nodes := []*Node{n, ps[0].Node, ps[1].Node}
		serv := map[string]string{"self": n.Addr, "p0": ps[0].Addr, "p1": ps[1].Addr}
		meta := map[string]string{"m": ms[0].addr}
		ms[0].reset(0)
		n.Disc.mu.Lock()
		n.Disc.Serv = map[string]map[string]string{"objectserver": serv, "metaserver": meta}
		n.Disc.mu.Unlock()
		for i, p := range ps {
			// each child is "self" for itself
			p.control(control{Reset: true, Serv: map[string]map[string]string{
				"objectserver": {"self": p.Addr, "other": n.Addr, "third": ps[1-i].Addr}, "metaserver": meta}})
		}
		objs := map[string]*object{}
		for i, nd := range nodes {
			for k := rapid.IntRange(0, 10).Draw(t, "objects"); k > 0; k-- {
				name := fmt.Sprintf("e%d-%d-%d.%d", caseNo, i, k, k%5)
				o := &object{Content(int64(caseNo*100+k+i*31), w.size("size")), rapid.Bool().Draw(t, "compress")}
				if r := nd.Do("PUT", "/objects/"+name+comp(o.comp), o.data); !r.OK() {
					w.failf("put: %s", r)
				}
				objs[name] = o
			}
		}
		files := func() (sum []int64, where map[string][]int) {
			where = map[string][]int{}
			for i, nd := range nodes {
				fs, _ := nd.Files()
				var s int64
				for _, f := range fs {
					s += f.Size
					where[f.Name] = append(where[f.Name], i)
				}
				sum = append(sum, s)
			}
			return
		}
		largest := int64(0)
		for _, nd := range nodes {
			fs, _ := nd.Files()
			for _, f := range fs {
				if f.Size > largest {
					largest = f.Size
				}
			}
		}
		before, _ := files()
		check := func(what string, exactly bool) {
			_, where := files()
			for name, o := range objs {
				if len(where[name]) == 0 || exactly && len(where[name]) != 1 {
					w.failf("%s: %s is on servers %v", what, name, where[name])
				}
				for _, i := range where[name] {
					if d := readAs(nodes[i], name, o); d != "" {
						w.failf("%s: %s on server %d: %s", what, name, i, d)
					}
				}
				for i, nd := range nodes {
					// a transfer that was cut may still be finished by the receiver
					has, status := false, 0
					ok := Eventually(func() bool {
						_, where = files()
						has = false
						for _, j := range where[name] {
							has = has || i == j
						}
						status = nd.Do("HEAD", "/objects/"+name, nil).Status
						return (status == 200) == has
					})
					if !ok {
						w.failf("%s: head of %s on server %d: %d, stored there: %v", what, name, i, status, has)
					}
				}
			}
			for i, nd := range nodes {
				sum, _ := files()
				ok := Eventually(func() bool {
					sum, _ = files()
					_, temps := nd.Files()
					return nd.Do("GET", "/stat", nil).Header.Get("Capacity") == strconv.FormatInt(sum[i], 10) && len(temps) == 0
				})
				if !ok {
					_, temps := nd.Files()
					w.failf("%s: server %d says it holds %s bytes, there are files of %d bytes, temporary files: %v", what, i, nd.Do("GET", "/stat", nil).Header.Get("Capacity"), sum[i], temps)
				}
			}
		}
		moved := false
		switch kind {
		case "send":
			prox.mu.Lock()
			prox.cuts = nil
			for k := rapid.IntRange(0, 2).Draw(t, "cuts"); k > 0; k-- {
				prox.cuts = append(prox.cuts, rapid.OneOf(rapid.IntRange(0, 3000), rapid.IntRange(0, 1+int(before[0]))).Draw(t, "cut"))
			}
			c.Logf("send %d bytes, cuts %v", before[0], prox.cuts)
			cut := len(prox.cuts) > 0
			prox.mu.Unlock()
			if cut {
				err := n.Migration.SendingTo(n.Addr, map[string]int64{prox.addr: 1 << 40})
				_, where := files()
				left := 0
				for _, is := range where {
					for _, i := range is {
						if i == 0 {
							left++
						}
					}
				}
				if err == nil && left > 0 {
					w.failf("all was sent without an error, %d objects are still here", left)
				}
				check("after cuts", false)
			}
			err := n.Migration.SendingTo(n.Addr, map[string]int64{ps[0].Addr: 1 << 40})
			for k := 0; cut && err != nil && k < 20; k++ {
				// what was cut may not have ended yet on the receiver
				time.Sleep(20 * time.Millisecond)
				err = n.Migration.SendingTo(n.Addr, map[string]int64{ps[0].Addr: 1 << 40})
			}
			if err != nil {
				w.failf("sending without cuts: %v", err)
			}
			sum, where := files()
			if sum[0] != 0 {
				w.failf("after sending all %d bytes are left", sum[0])
			}
			for name, is := range where {
				if strings.HasPrefix(name, fmt.Sprintf("e%d-0-", caseNo)) {
					i := strings.LastIndexByte(name, '.')
					if is[0] != 1 || !ms[0].has(located{name[:i], int(name[i+1] - '0'), ps[0].Addr}) {
						w.failf("%s was moved to server 1, it is on %v and the metadata server was told %v", name, is, ms[0].told)
					}
				}
			}
			moved = before[0] > 0
		case "leave":
			c.Logf("leave with %v", before)
			resp, err := self.LeaveCommand(context.Background(), &pb.EmptyReq{})
			must(err)
			sum, _ := files()
			total := before[0] + before[1] + before[2]
			if !resp.Success && total > 0 && before[0] > 0 {
				w.failf("leaving with %v fails: %s", before, resp.Message)
			}
			if resp.Success {
				if sum[0] != 0 {
					w.failf("left with %v, it still holds %d bytes", before, sum[0])
				}
				mean := (total + 1) / 2
				for i := 1; i < 3; i++ {
					if sum[i] > before[i] && sum[i] > mean+largest {
						w.failf("left with %v, then %v", before, sum)
					}
				}
			}
			moved = before[0] > 0
		case "join":
			c.Logf("join with %v", before)
			resp, err := self.JoinCommand(context.Background(), &pb.EmptyReq{})
			sum, _ := files()
			total := before[0] + before[1] + before[2]
			mean := total/3 + 1
			if err == nil && !resp.Success {
				w.failf("joining with %v: %s", before, resp.Message)
			}
			// each sender may send one object more than asked for
			if sum[0] > before[0] && sum[0] > mean+2*largest {
				w.failf("joined with %v, then %v, the largest object has %d bytes", before, sum, largest)
			}
			for i := 1; i < 3; i++ {
				if sum[i] < before[i] && sum[i] < mean-1-largest {
					w.failf("joined with %v, then %v, the largest object has %d bytes", before, sum, largest)
				}
			}
			moved = sum[0] > before[0]
		}
		check("in the end", true)
		if moved {
			c.NonTrivial()
		}
	})
}
