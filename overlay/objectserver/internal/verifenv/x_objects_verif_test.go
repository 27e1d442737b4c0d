package verifenv

import (
	"bytes"
	"fmt"
	"net/url"
	"objectserver/internal/usecase/pool"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verifharness/vh"
)

type object struct {
	data []byte
	comp bool
}

type upload struct {
	id, name string
	data     []byte
	parts    int
}

// world is a data server next to what it must hold.
type world struct {
	n       *Node
	t       *rapid.T
	c       *vh.Case
	names   []string
	objs    map[string]*object
	ups     []*upload
	orphans map[string]bool // temporary files of uploads that ended with the process
	big     bool            // sizes of many blocks
	commits int
	deletes int
	reads   int
	caches  int
	faults  int
}

var caseNo int

func newWorld(n *Node, t *rapid.T, c *vh.Case) *world {
	caseNo++
	n.Reset()
	p := fmt.Sprintf("h%d", caseNo)
	w := &world{n: n, t: t, c: c, objs: map[string]*object{}, orphans: map[string]bool{}}
	w.names = []string{p + ".0", p + ".1", p + ".10", p + "b.0", p + "b.0x"}
	w.names = w.names[:rapid.IntRange(2, 5).Draw(t, "names")]
	return w
}

func (w *world) failf(f string, a ...any) {
	w.t.Helper()
	w.t.Fatalf("%s\nhistory: %s", fmt.Sprintf(f, a...), w.c.Desc())
}

func (w *world) name() string { return rapid.SampledFrom(w.names).Draw(w.t, "name") }

// size draws a size, often next to a block boundary or to what the cache keeps.
func (w *world) size(label string) int {
	return rapid.OneOf(
		rapid.IntRange(1, 9000),
		rapid.Custom(func(t *rapid.T) int {
			s := rapid.SampledFrom([]int{1, 2, 3, 4, 8, 9, 16}).Draw(t, "blocks")*4096 + rapid.IntRange(-2, 2).Draw(t, "off")
			return s
		}),
		rapid.Custom(func(t *rapid.T) int {
			if w.big {
				return rapid.IntRange(20000, 300000).Draw(t, "big")
			}
			return rapid.IntRange(1, 40000).Draw(t, "mid")
		}),
	).Draw(w.t, label)
}

func (w *world) content(label string) []byte {
	return Content(int64(rapid.IntRange(1, 1<<30).Draw(w.t, "seed")), w.size(label))
}

func comp(b bool) string {
	if b {
		return "?compress=true"
	}
	return ""
}

func (w *world) pick() { w.n.Pick.Set(rapid.IntRange(0, len(w.n.Mounts)-1).Draw(w.t, "disk")) }

func (w *world) put(name string, data []byte, c bool) {
	w.pick()
	w.c.Logf("put %s %dB comp=%v", name, len(data), c)
	r := w.n.Do("PUT", "/objects/"+url.PathEscape(name)+comp(c), data)
	if !r.OK() {
		w.failf("put of %s (%d bytes, compress %v): %s", name, len(data), c, r)
	}
	if w.objs[name] == nil {
		w.objs[name] = &object{data, c}
	}
}

// expect says what a read may answer: the bytes, then nothing but zeros up to the end of the block.
func expect(data []byte, off, size int64, got []byte) string {
	var want []byte
	if off < int64(len(data)) {
		want = data[off:]
		if int64(len(want)) > size {
			want = want[:size]
		}
	}
	if len(got) < len(want) || !bytes.Equal(got[:len(want)], want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		return fmt.Sprintf("%d bytes, want %d, they differ from byte %d", len(got), len(want), i)
	}
	rest := got[len(want):]
	if len(rest) == 0 {
		return ""
	}
	if int64(len(got)) > size {
		return fmt.Sprintf("%d bytes, more than asked for", len(got))
	}
	if len(rest) >= 4096 {
		return fmt.Sprintf("%d bytes, want %d", len(got), len(want))
	}
	for i, b := range rest {
		if b != 0 {
			return fmt.Sprintf("byte %d after the end of the object is %d", i, b)
		}
	}
	return ""
}

func (w *world) getRange(name string, off, size int64) {
	o := w.objs[name]
	c := o != nil && o.comp
	hd := []string{"Size", strconv.FormatInt(size, 10)}
	if off > 0 {
		hd = append(hd, "Range", fmt.Sprintf("bytes=%d-", off))
	}
	r := w.n.Do("GET", "/objects/"+url.PathEscape(name)+comp(c), nil, hd...)
	if o == nil {
		if r.Status != 404 {
			w.failf("get of %s, which does not exist: %s", name, r)
		}
		return
	}
	if r.Broken != nil || r.Status != 200 {
		w.failf("get of %s (%d bytes, compress %v) from %d, %d bytes: %s", name, len(o.data), o.comp, off, size, r)
	}
	if d := expect(o.data, off, size, r.Body); d != "" {
		w.failf("get of %s (%d bytes, compress %v) from %d, %d bytes: got %s", name, len(o.data), o.comp, off, size, d)
	}
	w.reads++
	if size <= MaxItem {
		w.caches++
	}
}

func (w *world) get(name string) {
	o := w.objs[name]
	if o == nil || len(o.data) == 0 {
		w.c.Logf("get %s", name)
		w.getRange(name, int64(rapid.SampledFrom([]int{0, 1, 4096}).Draw(w.t, "off")), int64(w.size("size")))
		return
	}
	l := len(o.data)
	off := rapid.OneOf(rapid.Just(0), rapid.IntRange(0, l), rapid.Custom(func(t *rapid.T) int {
		v := rapid.IntRange(0, l/4096).Draw(t, "block")*4096 + rapid.IntRange(-1, 1).Draw(t, "d")
		if v < 0 {
			v = 0
		}
		return v
	})).Draw(w.t, "off")
	size := rapid.OneOf(rapid.Just(l-off), rapid.IntRange(1, l), rapid.SampledFrom([]int{1, 4096, 8192, l, l + 1, l + 5000})).Draw(w.t, "len")
	if size < 1 {
		size = 1
	}
	w.c.Logf("get %s %d+%d", name, off, size)
	w.getRange(name, int64(off), int64(size))
}

func (w *world) head(name string) {
	r := w.n.Do("HEAD", "/objects/"+url.PathEscape(name), nil)
	if o := w.objs[name]; (o != nil) != (r.Status == 200) || o == nil && r.Status != 404 {
		w.failf("head of %s: status %d, exists: %v", name, r.Status, o != nil)
	}
}

func (w *world) del(name string) {
	w.c.Logf("delete %s", name)
	r := w.n.Do("DELETE", "/objects/"+url.PathEscape(name), nil)
	if !r.OK() {
		w.failf("delete of %s: %s", name, r)
	}
	if w.objs[name] != nil {
		w.deletes++
	}
	delete(w.objs, name)
}

// ---- uploads

func (w *world) post() {
	name := w.name()
	w.pick()
	w.c.Logf("open %s", name)
	r := w.n.Do("POST", "/temp/"+url.PathEscape(name), nil, "Size", strconv.Itoa(w.size("announced")))
	if !r.OK() || len(r.Body) == 0 {
		w.failf("open an upload of %s: %s", name, r)
	}
	w.ups = append(w.ups, &upload{id: string(r.Body), name: name})
}

func (w *world) up() int {
	if len(w.ups) == 0 {
		w.post()
	}
	return rapid.IntRange(0, len(w.ups)-1).Draw(w.t, "upload")
}

func (w *world) patch(i int, part []byte) {
	u := w.ups[i]
	w.c.Logf("append #%d %dB", i, len(part))
	if r := w.n.Do("PATCH", "/temp/"+u.id, part); !r.OK() {
		w.failf("append %d bytes to upload #%d of %d bytes: %s", len(part), i, len(u.data), r)
	}
	u.data = append(u.data, part...)
	u.parts++
}

func (w *world) checkUpload(i int) {
	u := w.ups[i]
	r := w.n.Do("HEAD", "/temp/"+u.id, nil)
	if r.Status != 200 || r.Header.Get("Size") != strconv.Itoa(len(u.data)) {
		w.failf("size of upload #%d of %s: status %d, %q, %d bytes are appended", i, u.name, r.Status, r.Header.Get("Size"), len(u.data))
	}
	if len(u.data) > 0 {
		size := rapid.SampledFrom([]int{len(u.data), (len(u.data) + 1) / 2, 1}).Draw(w.t, "read")
		r = w.n.Do("GET", "/temp/"+u.id, nil, "Size", strconv.Itoa(size))
		if !r.OK() {
			w.failf("read of upload #%d (%d bytes), %d bytes: %s", i, len(u.data), size, r)
		}
		if d := expect(u.data, 0, int64(size), r.Body); d != "" {
			w.failf("read of upload #%d (%d bytes in %d parts), %d bytes: got %s", i, len(u.data), u.parts, size, d)
		}
	}
}

// gone checks that the upload is over.
func (w *world) gone(u *upload) {
	for _, m := range []string{"HEAD", "GET", "PATCH", "PUT"} {
		var body []byte
		if m == "PATCH" {
			body = []byte("x")
		}
		if r := w.n.Do(m, "/temp/"+u.id, body, "Size", "1"); r.Broken == nil && r.Status < 400 {
			w.failf("%s of the ended upload of %s: %s", m, u.name, r)
		}
	}
}

func (w *world) drop(i int) { w.ups = append(append([]*upload{}, w.ups[:i]...), w.ups[i+1:]...) }

func (w *world) commit(i int, c bool) {
	u := w.ups[i]
	w.c.Logf("commit #%d of %s %dB comp=%v", i, u.name, len(u.data), c)
	r := w.n.Do("PUT", "/temp/"+u.id+comp(c), nil)
	if len(u.data) == 0 && !r.OK() {
		// there is nothing to commit
		w.head(u.name)
		return
	}
	if !r.OK() {
		w.failf("commit of upload #%d of %s (%d bytes): %s", i, u.name, len(u.data), r)
	}
	if w.objs[u.name] == nil {
		w.objs[u.name] = &object{u.data, c}
		w.commits++
	}
	w.drop(i)
	w.gone(u)
}

func (w *world) abort(i int) {
	u := w.ups[i]
	w.c.Logf("abort #%d", i)
	if r := w.n.Do("DELETE", "/temp/"+u.id, nil); !r.OK() {
		w.failf("abort of upload #%d: %s", i, r)
	}
	w.drop(i)
	w.gone(u)
}

// expire is what happens to an upload that has been idle for too long.
func (w *world) expire(i int) {
	u := w.ups[i]
	w.c.Logf("expire #%d", i)
	pool.Cache.Delete(u.id)
	w.drop(i)
	w.gone(u)
	w.noTemp(u.id)
}

func (w *world) noTemp(id string) {
	ok := Eventually(func() bool {
		_, temps := w.n.Files()
		for _, f := range temps {
			if f.Name == id {
				return false
			}
		}
		return true
	})
	if !ok {
		w.failf("the temporary file of the ended upload %s stays", id)
	}
}

// ---- faults

// brokenPut stores only part of a body.
func (w *world) brokenPut(name string, data []byte, k int, c bool) {
	w.pick()
	w.faults++
	w.c.Logf("put %s %dB comp=%v breaks after %d", name, len(data), c, k)
	was := w.objs[name] != nil
	r := w.n.Split("PUT", "/objects/"+url.PathEscape(name)+comp(c), int64(len(data)), data[:k], w.meanwhile(name), nil)
	if !was && w.objs[name] == nil && r.OK() {
		w.failf("put of %s broke off after %d of %d bytes, the server says %s", name, k, len(data), r)
	}
	w.head(name)
	w.getRange(name, 0, int64(len(data)))
}

func (w *world) brokenPatch(i int, data []byte, k int) {
	w.faults++
	w.c.Logf("append #%d %dB breaks after %d", i, len(data), k)
	if r := w.n.Split("PATCH", "/temp/"+w.ups[i].id, int64(len(data)), data[:k], w.meanwhile(w.ups[i].name), nil); r.OK() {
		w.failf("append to upload #%d broke off after %d of %d bytes, the server says %s", i, k, len(data), r)
	}
	w.checkUpload(i)
}

// meanwhile is what others do while a body for name is on its way.
func (w *world) meanwhile(name string) func() {
	do := rapid.IntRange(0, 9).Draw(w.t, "meanwhile")
	return func() {
		switch do {
		case 5, 6:
			// the server has taken something
			time.Sleep(2 * time.Millisecond)
			w.head(name)
			w.getRange(name, 0, 10)
		case 7, 8:
			w.put(name, w.content("size"), rapid.Bool().Draw(w.t, "compress"))
		case 9:
			w.del(name)
		}
	}
}

// slowPut is a put during which others do something to the same object.
func (w *world) slowPut() {
	name, data, c := w.name(), w.content("size"), rapid.Bool().Draw(w.t, "compress")
	k := rapid.IntRange(0, len(data)-1).Draw(w.t, "first")
	w.pick()
	between := w.meanwhile(name)
	w.c.Logf("put %s %dB comp=%v in two pieces, after %d:", name, len(data), c, k)
	r := w.n.Split("PUT", "/objects/"+url.PathEscape(name)+comp(c), int64(len(data)), data[:k], between, data[k:])
	if !r.OK() {
		w.failf("put of %s (%d bytes, compress %v) in two pieces: %s", name, len(data), c, r)
	}
	// it may have found another one, which is deleted by now
	if w.objs[name] == nil && w.n.Do("HEAD", "/objects/"+url.PathEscape(name), nil).Status == 200 {
		w.objs[name] = &object{data, c}
	}
	w.head(name)
	if o := w.objs[name]; o != nil {
		w.getRange(name, 0, int64(len(o.data)+1))
	}
}

// damaged reads a compressed object while a byte of its file is wrong: it may fail, but not deliver anything else.
func (w *world) damaged() {
	name := w.name()
	o := w.objs[name]
	if o == nil || !o.comp {
		return
	}
	objects, _ := w.n.Files()
	for _, f := range objects {
		if f.Name != name {
			continue
		}
		bt, err := os.ReadFile(f.Path)
		must(err)
		// the bodies of chunks that carry data are protected by a checksum
		var at []int
		for p := 0; p+4 <= len(bt); {
			n := int(bt[p+1]) | int(bt[p+2])<<8 | int(bt[p+3])<<16
			if bt[p] < 2 && n > 0 {
				at = append(at, p+4, p+4+n/2, p+4+n-1)
			}
			p += 4 + n
		}
		if len(at) == 0 {
			return
		}
		i := rapid.SampledFrom(at).Draw(w.t, "byte")
		bad := append([]byte{}, bt...)
		bad[i] ^= byte(rapid.IntRange(1, 255).Draw(w.t, "flip"))
		must(os.WriteFile(f.Path, bad, 0o600))
		off := rapid.SampledFrom([]int{0, 1, len(o.data) / 2, len(o.data) - 1}).Draw(w.t, "off")
		w.c.Logf("damage %s at %d, get from %d", name, i, off)
		r := w.n.Do("GET", "/objects/"+url.PathEscape(name)+comp(true), nil, "Size", strconv.Itoa(len(o.data)-off), "Range", fmt.Sprintf("bytes=%d-", off))
		if r.OK() {
			if d := expect(o.data, int64(off), int64(len(o.data)-off), r.Body); d != "" {
				w.failf("get of the damaged %s (%d bytes) from %d says it succeeds: %s", name, len(o.data), off, d)
			}
		} else {
			w.c.Class("damage noticed")
		}
		must(os.WriteFile(f.Path, bt, 0o600))
	}
}

// crash ends the process while a body is on its way, and starts a new one on what is on the disks then.
func (w *world) crash() {
	kind := rapid.SampledFrom([]string{"put", "put", "append", "idle"}).Draw(w.t, "crash in")
	c := rapid.Bool().Draw(w.t, "compress")
	w.faults++
	snap := filepath.Join(w.n.Root, "snapshot")
	_ = os.RemoveAll(snap)
	shot := func() {
		if kind != "idle" {
			// let the server take what was sent, as far as it does
			time.Sleep(3 * time.Millisecond)
		}
		for i := range w.n.Mounts {
			dst := filepath.Join(snap, strconv.Itoa(i))
			must(os.MkdirAll(dst, 0o700))
			objects, temps := w.n.Files()
			for _, f := range append(objects, temps...) {
				if f.Disk != i {
					continue
				}
				bt, err := os.ReadFile(f.Path)
				if os.IsNotExist(err) {
					continue
				}
				must(err)
				must(os.WriteFile(filepath.Join(dst, f.Name), bt, 0o600))
			}
		}
	}
	switch kind {
	case "put":
		name, data := w.name(), w.content("size")
		k := rapid.IntRange(0, len(data)-1).Draw(w.t, "sent")
		w.pick()
		w.c.Logf("crash after %d of %dB put to %s comp=%v", k, len(data), name, c)
		w.n.Split("PUT", "/objects/"+url.PathEscape(name)+comp(c), int64(len(data)), data[:k], shot, nil)
	case "append":
		i, data := w.up(), w.content("size")
		k := rapid.IntRange(0, len(data)-1).Draw(w.t, "sent")
		w.c.Logf("crash after %d of %dB appended to #%d", k, len(data), i)
		w.n.Split("PATCH", "/temp/"+w.ups[i].id, int64(len(data)), data[:k], shot, nil)
	default:
		w.c.Logf("restart")
		shot()
	}
	for i := range w.n.Mounts {
		must(os.RemoveAll(w.n.Storage(i)))
		must(os.MkdirAll(w.n.Storage(i), 0o700))
		es, err := os.ReadDir(filepath.Join(snap, strconv.Itoa(i)))
		must(err)
		for _, e := range es {
			must(os.Rename(filepath.Join(snap, strconv.Itoa(i), e.Name()), filepath.Join(w.n.Storage(i), e.Name())))
		}
	}
	w.ups = nil
	_, temps := w.n.Files()
	for _, f := range temps {
		w.orphans[f.Name] = true
	}
	w.n.Restart()
}

// full stores while the disk is full from max bytes of a file on.
func (w *world) full() {
	w.faults++
	max := rapid.IntRange(0, 12).Draw(w.t, "max")*1024 + rapid.SampledFrom([]int{0, 0, 100}).Draw(w.t, "odd")
	c := rapid.Bool().Draw(w.t, "compress")
	var r Resp
	switch rapid.SampledFrom([]string{"put", "append", "commit"}).Draw(w.t, "full in") {
	case "put":
		name, data := w.name(), w.content("size")
		w.pick()
		w.c.Logf("put %s %dB comp=%v, disk full at %d", name, len(data), c, max)
		Limited(int64(max), func() {
			r = w.n.Do("PUT", "/objects/"+url.PathEscape(name)+comp(c), data)
		})
		if w.objs[name] == nil && r.OK() {
			w.objs[name] = &object{data, c}
		}
		w.head(name)
		w.getRange(name, 0, int64(len(data)))
	case "append":
		i, data := w.up(), w.content("size")
		// what is there already stays
		max += (len(w.ups[i].data) + 4095) / 4096 * 4096
		w.c.Logf("append #%d %dB, disk full at %d", i, len(data), max)
		Limited(int64(max), func() {
			r = w.n.Do("PATCH", "/temp/"+w.ups[i].id, data)
		})
		if r.OK() {
			w.ups[i].data = append(w.ups[i].data, data...)
			w.ups[i].parts++
		}
		w.checkUpload(i)
	default:
		i := w.up()
		u := w.ups[i]
		w.c.Logf("commit #%d of %s %dB comp=%v, disk full at %d", i, u.name, len(u.data), c, max)
		Limited(int64(max), func() {
			r = w.n.Do("PUT", "/temp/"+u.id+comp(c), nil)
		})
		if r.OK() {
			if w.objs[u.name] == nil {
				w.objs[u.name] = &object{u.data, c}
			}
			w.drop(i)
			w.gone(u)
		} else {
			w.head(u.name)
			w.checkUpload(i)
		}
	}
}

// ---- invariants

// files: each object is one file, temporary files belong to open uploads.
func (w *world) checkFiles() {
	open := map[string]bool{}
	for _, u := range w.ups {
		open[u.id] = true
	}
	objects, temps := w.n.Files()
	for _, f := range temps {
		if !open[f.Name] && !w.orphans[f.Name] {
			w.noTemp(f.Name)
		}
	}
	seen := map[string]bool{}
	for _, f := range objects {
		if w.objs[f.Name] == nil || seen[f.Name] {
			w.failf("file %s (%d bytes) on disk %d: exists %v, another copy %v", f.Name, f.Size, f.Disk, w.objs[f.Name] != nil, seen[f.Name])
		}
		seen[f.Name] = true
	}
	for _, name := range vh.Keys(w.objs) {
		if !seen[name] {
			w.failf("no file of %s on any disk", name)
		}
	}
}

func (w *world) stored() (sum int64) {
	objects, _ := w.n.Files()
	for _, f := range objects {
		sum += f.Size
	}
	return
}

func (w *world) checkCapacity() {
	ok := pool.ObjectCap.Capacity() == w.stored()
	for i := 0; !ok && i < 1000; i++ {
		time.Sleep(2 * time.Millisecond)
		ok = pool.ObjectCap.Capacity() == w.stored()
	}
	if !ok {
		w.failf("the used capacity is %d, objects of %d bytes are stored", pool.ObjectCap.Capacity(), w.stored())
	}
	if r := w.n.Do("GET", "/stat", nil); r.Header.Get("Capacity") != strconv.FormatInt(w.stored(), 10) {
		w.failf("the reported capacity is %q, objects of %d bytes are stored", r.Header.Get("Capacity"), w.stored())
	}
}

func (w *world) checkAll() {
	for _, name := range w.names {
		w.head(name)
		if o := w.objs[name]; o != nil {
			w.getRange(name, 0, int64(len(o.data)+1))
		} else {
			w.getRange(name, 0, 10)
		}
	}
	for i := range w.ups {
		w.checkUpload(i)
	}
	w.checkFiles()
	w.checkCapacity()
}

type op struct {
	weight int
	run    func()
}

func (w *world) run(steps int, ops map[string]op) {
	// rapid prefers what comes first: the heaviest come first, and each once before any twice
	keys := vh.Keys(ops)
	sort.SliceStable(keys, func(i, j int) bool { return ops[keys[i]].weight > ops[keys[j]].weight })
	var bag []string
	for round, more := 0, true; more; round++ {
		more = false
		for _, k := range keys {
			if ops[k].weight > round {
				bag = append(bag, k)
				more = true
			}
		}
	}
	for i := 0; i < steps; i++ {
		k := rapid.SampledFrom(bag).Draw(w.t, "op")
		w.c.Class(k)
		ops[k].run()
		if rapid.IntRange(0, 9).Draw(w.t, "look") == 0 {
			w.checkAll()
		}
	}
	w.checkAll()
}

func (w *world) ops() map[string]op {
	flag := func() bool { return rapid.Bool().Draw(w.t, "compress") }
	return map[string]op{
		"put":    {4, func() { w.put(w.name(), w.content("size"), flag()) }},
		"get":    {8, func() { w.get(w.name()) }},
		"head":   {1, func() { w.head(w.name()) }},
		"delete": {2, func() { w.del(w.name()) }},
		"open":   {1, w.post},
		"append": {1, func() { w.patch(w.up(), w.content("part")) }},
		"state":  {1, func() { w.checkUpload(w.up()) }},
		"commit": {1, func() { w.commit(w.up(), flag()) }},
		"abort":  {1, func() { w.abort(w.up()) }},
		"restart": {1, func() {
			w.c.Logf("restart")
			w.n.Restart()
			w.ups = nil
			_, temps := w.n.Files()
			for _, f := range temps {
				w.orphans[f.Name] = true
			}
		}},
		"lost paths": {1, func() {
			w.c.Logf("lose index")
			for _, name := range w.names {
				if ps, err := pool.PathDB.Get(name); err == nil {
					for _, p := range append([]string{}, ps...) {
						_ = pool.PathDB.Remove(name, p)
					}
				}
			}
		}},
	}
}

func (w *world) weights(ws string) map[string]op {
	ops := w.ops()
	ops["broken put"] = op{0, func() {
		data := w.content("size")
		w.brokenPut(w.name(), data, rapid.IntRange(0, len(data)-1).Draw(w.t, "sent"), rapid.Bool().Draw(w.t, "compress"))
	}}
	ops["broken append"] = op{0, func() {
		i, data := w.up(), w.content("part")
		w.brokenPatch(i, data, rapid.IntRange(0, len(data)-1).Draw(w.t, "sent"))
	}}
	ops["damage"] = op{0, w.damaged}
	ops["slow put"] = op{1, w.slowPut}
	ops["crash"] = op{0, w.crash}
	ops["full"] = op{0, w.full}
	ops["expire"] = op{0, func() { w.expire(w.up()) }}
	for _, kv := range strings.Split(ws, ",") {
		k, v, _ := strings.Cut(strings.TrimSpace(kv), "=")
		n, err := strconv.Atoi(v)
		must(err)
		o, ok := ops[k]
		if !ok {
			panic(k)
		}
		o.weight = n
		ops[k] = o
	}
	return ops
}

func node(t *testing.T, disks int) *Node {
	n := New(t.TempDir(), disks)
	t.Cleanup(n.Close)
	return n
}

func TestVerif_O01_histories(t *testing.T) {
	n := node(t, 3)
	vh.Check(t, vh.N(700, 25000), "histories of put/get/ranged get/head/delete/upload/restart over 2-5 look-alike names on 3 disks, sizes around multiples of 4 KiB and what the cache keeps, "+
		"compressed and not, every answer compared with a model; non-trivial: at least 3 reads of stored bytes and a delete or commit", func(t *rapid.T, c *vh.Case) {
		w := newWorld(n, t, c)
		w.big = rapid.IntRange(0, 4).Draw(t, "big") == 0
		w.run(rapid.IntRange(4, 30).Draw(t, "steps"), w.weights("put=6,get=10,delete=3,damage=2"))
		c.ClassIf(w.caches > 1, "cached reads")
		if w.reads >= 3 && w.deletes+w.commits > 0 {
			c.NonTrivial()
		}
	})
}

func TestVerif_O02_uploads(t *testing.T) {
	n := node(t, 3)
	vh.Check(t, vh.N(700, 25000), "histories of several uploads at once (open, append parts of any size, size, read, commit, abort, expiry) with puts and deletes of the same names; "+
		"sizes, contents, visibility and temporary files compared with a model; non-trivial: a commit of at least one part and another upload ended", func(t *rapid.T, c *vh.Case) {
		w := newWorld(n, t, c)
		w.big = rapid.IntRange(0, 4).Draw(t, "big") == 0
		ends := 0
		ops := w.weights("put=1,get=3,delete=2,open=4,append=12,state=4,abort=0,restart=0,expire=0,commit=0,lost paths=0")
		ops["commit"] = op{4, func() { ends++; w.commit(w.up(), rapid.Bool().Draw(t, "compress")) }}
		ops["abort"] = op{2, func() { ends++; w.abort(w.up()) }}
		ops["expire"] = op{1, func() { ends++; w.expire(w.up()) }}
		w.run(rapid.IntRange(4, 30).Draw(t, "steps"), ops)
		if w.commits > 0 && ends > 1 {
			c.NonTrivial()
		}
	})
}

func TestVerif_O03_faults(t *testing.T) {
	n := node(t, 3)
	vh.Check(t, vh.N(700, 25000), "histories of puts, uploads, commits and retries in which bodies break off at any byte, the disk is full from any size on, or the process ends in the middle and a new one "+
		"starts on what is on the disks; visibility, contents, temporary files and capacity compared with a model; non-trivial: a fault and a successful store", func(t *rapid.T, c *vh.Case) {
		w := newWorld(n, t, c)
		w.big = rapid.IntRange(0, 3).Draw(t, "big") == 0
		w.run(rapid.IntRange(3, 20).Draw(t, "steps"), w.weights("put=3,get=2,delete=2,open=1,append=4,state=1,commit=3,abort=1,restart=0,lost paths=0,broken put=5,broken append=4,crash=3,full=5"))
		if w.faults > 0 && len(w.objs) > 0 {
			c.NonTrivial()
		}
	})
}

func TestVerif_O05_capacity(t *testing.T) {
	n := node(t, 3)
	vh.Check(t, vh.N(700, 25000), "histories of puts (complete and broken), commits, aborts, deletes and restarts; after each step the used capacity is compared with the sizes of the object files; "+
		"non-trivial: objects stored and removed", func(t *rapid.T, c *vh.Case) {
		w := newWorld(n, t, c)
		ops := w.weights("put=6,get=1,delete=4,open=1,append=3,state=0,commit=3,abort=1,restart=1,lost paths=1,broken put=2,broken append=1,full=1,crash=1")
		for k, o := range ops {
			o := o
			ops[k] = op{o.weight, func() { o.run(); w.checkCapacity() }}
		}
		w.run(rapid.IntRange(4, 25).Draw(t, "steps"), ops)
		if w.deletes > 0 && w.stored() > 0 {
			c.NonTrivial()
		}
	})
}
