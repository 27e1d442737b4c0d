package verifenv

import (
	"apiserver/internal/entity"
	"apiserver/internal/usecase/pool"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"net/url"
	"strings"
	"sync"
	"testing"
	"time"

	"verifharness/vh"

	"pgregory.net/rapid"
)

var (
	webOnce sync.Once
	theWeb  *Web
)

func web() *Web {
	webOnce.Do(func() { theWeb = NewWeb(api()) })
	return theWeb
}

// resumable is an upload in pieces.
type resumable struct {
	name, bucket string
	data         []byte
	digest       string
	compress     bool // asked for
	ds, ps       int
	wantCompress bool
	path         string // of the upload
	block        int64
	acked        int64
	done         bool
	ver          int32
	lateMeta     bool // a version may have been added although the request failed
	completing   bool // the last piece has been sent at least once
	abandoned    bool
}

type bigRun struct {
	t *rapid.T
	c *vh.Case
	a *API
	w *Web
}

func (b *bigRun) quiet() {
	if !b.w.Quiet(patience) {
		b.t.Fatalf("requests do not end")
	}
}

func (b *bigRun) post(u *resumable) {
	q := url.Values{}
	if u.compress {
		q.Set("compress", "true")
	}
	ans, err := b.w.Call("POST", "/v1/big/"+u.name, q, map[string]string{
		"bucket": u.bucket, "digest": u.digest, "size": fmt.Sprint(len(u.data)),
	}, nil, 0)
	b.c.Logf("post %s (%d bytes): %v %v", u.name, len(u.data), ans, err)
	if err != nil {
		b.t.Fatalf("POST: %s", err)
	}
	switch ans.Status {
	case 200:
		// the content is known to be stored
		b.c.Class("deduplicated")
		b.finished(u, ans)
		return
	case 201:
	default:
		b.t.Fatalf("POST is answered with %v", ans)
	}
	u.path = ans.Header.Get("Location")
	if _, err = fmt.Sscan(ans.Header.Get("Min-Part-Size"), &u.block); err != nil || u.block <= 0 || u.path == "" {
		b.t.Fatalf("POST answers location %q and part size %q", u.path, ans.Header.Get("Min-Part-Size"))
	}
}

func (b *bigRun) finished(u *resumable, ans Answer) {
	var r entity.PutResp
	if err := json.Unmarshal(ans.Body, &r); err != nil {
		b.t.Fatalf("upload ends with %v: %s", ans, err)
	}
	if r.Name != u.name || r.Bucket != u.bucket || r.Version <= 0 {
		b.t.Fatalf("upload of %s/%s ends with %+v", u.bucket, u.name, r)
	}
	u.done, u.ver = true, r.Version
}

// head is the offset to go on from, -1 if it cannot be asked.
func (b *bigRun) head(u *resumable) int64 {
	ans, err := b.w.Call("HEAD", u.path, nil, nil, nil, 0)
	if err != nil {
		b.t.Fatalf("HEAD: %s", err)
	}
	if ans.Status != 200 {
		b.c.Logf("  head: %v", ans)
		if ans.Status < 400 {
			b.t.Fatalf("HEAD is answered with %v", ans)
		}
		return -1
	}
	return ans.Length
}

func (b *bigRun) mustHead(u *resumable) int64 {
	off := b.head(u)
	size := int64(len(u.data))
	if off < 0 || off > size {
		b.t.Fatalf("%s: the offset is %d of %d though all servers work", u.name, off, size)
	}
	if off < u.acked {
		b.t.Fatalf("%s: the offset is %d, %d bytes have been acknowledged", u.name, off, u.acked)
	}
	if off != size && off%u.block != 0 {
		b.t.Fatalf("%s: the offset %d is no multiple of the part size %d", u.name, off, u.block)
	}
	return off
}

func (b *bigRun) patch(u *resumable, off int64, piece []byte, broken bool, length int64) (Answer, error) {
	var body = bytes.NewReader(piece)
	h := map[string]string{"Range": fmt.Sprintf("bytes=%d-", off)}
	if broken {
		b.w.Fresh()
		ans, err := b.w.Call("PATCH", u.path, nil, h, Interrupted(piece), length)
		return ans, err
	}
	return b.w.Call("PATCH", u.path, nil, h, body, length)
}

func (b *bigRun) nothingYet(u *resumable) {
	if vs := b.a.Meta.Versions(u.bucket, u.name); len(vs) > 0 && !u.lateMeta {
		b.t.Fatalf("%s has a version before its upload is complete", u.name)
	}
	if u.lateMeta {
		return
	}
	ans, err := b.w.Call("GET", "/v1/objects/"+u.name, nil, map[string]string{"bucket": u.bucket}, nil, 0)
	if err != nil || ans.Status < 400 {
		b.t.Fatalf("%s is readable before its upload is complete: %v %v", u.name, ans, err)
	}
}

var bigFaults = []string{"patch temp", "head temp", "put temp", "get temp", "meta add", "meta insert", "bucket"}

// step does one thing to the upload.
func (b *bigRun) step(u *resumable) {
	off := b.mustHead(u)
	size := int64(len(u.data))
	rest := size - off
	// the whole rest, a piece around the part size, or any
	n := rest
	switch rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(b.t, "piece") {
	case 1:
		n = u.block*int64(rapid.IntRange(1, 3).Draw(b.t, "blocks")) + int64(rapid.SampledFrom([]int{0, 1, -1, 1000, -1000}).Draw(b.t, "delta"))
	case 2:
		n = int64(rapid.IntRange(0, int(rest)).Draw(b.t, "n"))
	case 3:
		n = rest - int64(rapid.IntRange(0, 3).Draw(b.t, "less"))
	}
	if n > rest || n < 0 {
		n = rest
	}
	piece := u.data[off : off+n]
	kind := rapid.SampledFrom([]string{"plain", "interrupted", "fault", "fault", "wrong offset", "oversize", "oversize chunked"}).Draw(b.t, "kind")
	switch kind {
	case "plain", "interrupted":
		chunked := rapid.Bool().Draw(b.t, "chunked")
		length, broken := n, false
		if kind == "interrupted" && n > 0 {
			broken = true
			piece = piece[:rapid.IntRange(0, int(n)-1).Draw(b.t, "breaks at")]
			b.c.Class("interrupted")
		}
		if chunked {
			length = -1
			if n == 0 {
				length = 0
			}
		}
		ans, err := b.patch(u, off, piece, broken, length)
		b.quiet()
		b.c.Logf("  patch %s [%d,+%d) of %d, length %d, interrupted %t: %v %v", u.name, off, len(piece), size, length, broken, ans, err)
		if broken {
			if err == nil && ans.Status == 200 {
				b.t.Fatalf("an interrupted piece completes the upload: %v", ans)
			}
			if err == nil && ans.Status == 206 {
				u.acked = b.acked(u, ans)
			}
			return
		}
		if err != nil {
			b.t.Fatalf("PATCH: %s", err)
		}
		if n == rest {
			u.completing = true
			if ans.Status != 200 {
				b.t.Fatalf("%s: the last piece is answered with %v", u.name, ans)
			}
			b.finished(u, ans)
			return
		}
		if ans.Status != 206 {
			b.t.Fatalf("%s: a piece is answered with %v", u.name, ans)
		}
		u.acked = b.acked(u, ans)
		now := b.mustHead(u)
		if now != u.acked {
			b.t.Fatalf("%s: a piece is answered with offset %d, then it is %d", u.name, u.acked, now)
		}
		if want := (off + n) / u.block * u.block; now != want {
			b.t.Fatalf("%s: after %d bytes from %d on (part size %d) the offset is %d", u.name, n, off, u.block, now)
		}
	case "fault":
		b.fault(u, off, piece, rest)
	case "wrong offset":
		wrong := off + int64(rapid.SampledFrom([]int{1, -1, int(u.block), -int(u.block), 1 << 20}).Draw(b.t, "wrong"))
		if wrong < 0 {
			wrong = off + 1
		}
		if len(piece) == 0 {
			piece = []byte("x")
		}
		ans, err := b.patch(u, wrong, piece, false, int64(len(piece)))
		b.quiet()
		b.c.Logf("  patch %s at %d instead of %d: %v %v", u.name, wrong, off, ans, err)
		b.c.Class("wrong offset")
		if err == nil && ans.Status < 400 {
			b.t.Fatalf("a piece at a wrong offset is accepted: %v", ans)
		}
		if now := b.mustHead(u); now != off {
			b.t.Fatalf("after a refused piece the offset is %d instead of %d", now, off)
		}
	case "oversize", "oversize chunked":
		b.c.Class(kind)
		more := append(append([]byte(nil), u.data[off:]...), Content(1, rapid.SampledFrom([]int{1, 1000, 70000}).Draw(b.t, "more"))...)
		length := int64(len(more))
		if kind != "oversize" {
			length = -1
		}
		ans, err := b.patch(u, off, more, false, length)
		b.quiet()
		b.c.Logf("  patch %s with %d bytes at %d of %d, length %d: %v %v", u.name, len(more), off, size, length, ans, err)
		if err == nil && ans.Status < 400 {
			b.t.Fatalf("a piece beyond the size is accepted: %v", ans)
		}
		if kind == "oversize" {
			if now := b.mustHead(u); now != off {
				b.t.Fatalf("after a refused piece the offset is %d instead of %d", now, off)
			}
			return
		}
		// the upload may be given up
		b.nothingYet(u)
		u.abandoned = true
	}
}

func (b *bigRun) acked(u *resumable, ans Answer) (n int64) {
	n = ans.Length
	if n < u.acked || n > int64(len(u.data)) {
		b.t.Fatalf("%s: a piece is answered with the offset %d, it has been %d", u.name, n, u.acked)
	}
	return
}

func (b *bigRun) fault(u *resumable, off int64, piece []byte, rest int64) {
	kind := rapid.SampledFrom(bigFaults).Draw(b.t, "fault")
	late := rapid.Bool().Draw(b.t, "late")
	reset := rapid.Bool().Draw(b.t, "reset")
	nth := rapid.IntRange(1, 4).Draw(b.t, "nth")
	once := rapid.Bool().Draw(b.t, "once")
	// the others are for the last piece
	if kind != "patch temp" && kind != "head temp" {
		piece = u.data[off:]
	}
	if int64(len(piece)) == rest {
		u.completing = true
	}
	var mu sync.Mutex
	seen, hit := 0, 0
	strikes := func() bool {
		mu.Lock()
		defer mu.Unlock()
		seen++
		if seen == nth || seen > nth && !once {
			hit++
			return true
		}
		return false
	}
	meta := strings.HasPrefix(kind, "meta") || kind == "bucket"
	if meta {
		nth = 1
		what := strings.TrimPrefix(kind, "meta ")
		b.a.Meta.SetFault(func(op string, after bool) error {
			if op != what || after != (late && what != "bucket") || !strikes() {
				return nil
			}
			if after {
				// the version is added to what is inserted by a second call
				u.lateMeta = u.lateMeta || what == "add"
			}
			return errors.New("metadata server fails")
		})
	} else {
		b.a.SetFault(func(_ *DataServer, op, name string) (f Fault) {
			if op != kind || !strikes() {
				return
			}
			f.Late = late && kind != "get temp" && kind != "head temp"
			if f.Reset = reset; !reset {
				f.Status = 500
			}
			return
		})
	}
	ans, err := b.patch(u, off, piece, false, int64(len(piece)))
	b.quiet()
	b.a.SetFault(nil)
	b.a.Meta.SetFault(nil)
	b.c.Logf("  patch %s [%d,+%d) of %d with failing %q (late %t, reset %t, from %d on, once %t; %d hit): %v %v", u.name, off, len(piece), len(u.data), kind, late, reset, nth, once, hit, ans, err)
	if err != nil {
		b.t.Fatalf("PATCH: %s", err)
	}
	if hit > 0 {
		b.c.Class("fault " + kind)
	}
	switch {
	case ans.Status == 200:
		if int64(len(piece)) < rest {
			b.t.Fatalf("a piece completes the upload")
		}
		if hit > 0 && !reset && (kind == "patch temp" || kind == "put temp" || meta) {
			b.t.Fatalf("the upload is completed though a server failed")
		}
		b.finished(u, ans)
	case ans.Status == 206:
		if int64(len(piece)) == rest {
			b.t.Fatalf("the last piece is answered with %v", ans)
		}
		if hit > 0 && !reset && kind == "patch temp" {
			b.t.Fatalf("a piece is acknowledged though a server failed")
		}
		u.acked = b.acked(u, ans)
	case ans.Status < 400:
		b.t.Fatalf("answer %v", ans)
	case hit == 0:
		b.t.Fatalf("a piece is refused though nothing failed: %v", ans)
	}
	if kind == "get temp" && hit > 0 && pool.Config.Object.Checksum && ans.Status >= 400 {
		// content that cannot be verified is given up
		u.abandoned = true
	}
}

// verify what is recorded and read back, if wanted also after losing shards.
func (b *bigRun) verify(u *resumable, lose bool) {
	vs := b.a.Meta.Versions(u.bucket, u.name)
	var v *entity.Version
	for _, x := range vs {
		if x.Sequence == u.ver {
			v = x
		}
	}
	if v == nil {
		b.t.Fatalf("%s: version %d is not there", u.name, u.ver)
	}
	if v.Size != int64(len(u.data)) || v.Compress != u.wantCompress || v.StoreStrategy != entity.ECReedSolomon || v.DataShards != u.ds || v.ParityShards != u.ps || len(v.Locate) != u.ds+u.ps {
		b.t.Fatalf("%s (%d bytes, compression %t, %d+%d shards) is recorded as %+v", u.name, len(u.data), u.wantCompress, u.ds, u.ps, v)
	}
	get := func(how string) {
		ans, err := b.w.Call("GET", "/v1/objects/"+u.name, url.Values{"version": {fmt.Sprint(u.ver)}}, map[string]string{"bucket": u.bucket}, nil, 0)
		if err != nil || ans.Status != 200 || ans.Err != nil {
			b.t.Fatalf("%s: reading %s: %v %v", u.name, how, ans, err)
		}
		if !bytes.Equal(ans.Body, u.data) {
			i := 0
			for i < len(ans.Body) && i < len(u.data) && ans.Body[i] == u.data[i] {
				i++
			}
			b.t.Fatalf("%s: reading %s returns %d bytes for %d, different from %d on", u.name, how, len(ans.Body), len(u.data), i)
		}
	}
	get("completely")
	for i, loc := range v.Locate {
		o := b.a.At(loc).Object(fmt.Sprint(v.Hash, ".", i))
		if o == nil || o.Compress != u.wantCompress {
			b.t.Fatalf("%s: shard %d is stored as %+v", u.name, i, o)
		}
	}
	// the parity is right as well
	if !lose {
		return
	}
	if lost := rapid.IntRange(0, u.ps).Draw(b.t, "lost"); lost > 0 {
		which := rapid.Permutation(seqOf(u.ds+u.ps)).Draw(b.t, "which")[:lost]
		for _, i := range which {
			b.a.At(v.Locate[i]).Lose(fmt.Sprint(v.Hash, ".", i))
		}
		get(fmt.Sprint("without shards ", which))
		b.quiet()
	}
}

// TestVerif_A04_big uploads in pieces, going on from the offset the server reports.
func TestVerif_A04_big(t *testing.T) {
	w := web()
	a := w.api
	vh.Check(t, vh.N(260, 3500), "upload of several requests, at least one interrupted, failing, refused or of several blocks", func(t *rapid.T, c *vh.Case) {
		a.Reset()
		cfg := &pool.Config.Object
		cfg.DistinctTimeout = time.Millisecond
		cfg.Checksum = rapid.Bool().Draw(t, "checksum")
		cfg.ReedSolomon.BlockPerShard = rapid.SampledFrom([]int{16384, 4096, 32768}).Draw(t, "block per shard")
		w.Reset()
		b := &bigRun{t, c, a, w}
		bucket := entity.Bucket{Name: "b", Versioning: true, VersionRemains: 1000}
		p := params{ds: cfg.ReedSolomon.DataShards, ps: cfg.ReedSolomon.ParityShards}
		switch rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "policy") {
		case 0:
			p = genRS(t)
			bucket.StoreStrategy, bucket.DataShards, bucket.ParityShards = entity.ECReedSolomon, p.ds, p.ps
		case 1:
			// other than big objects
			bucket.StoreStrategy, bucket.DataShards = entity.MultiReplication, 2
			c.Class("other strategy")
		}
		bucket.Compress = rapid.Bool().Draw(t, "bucket compress")
		a.Meta.SetBucket(bucket)
		caseNo++
		var us []*resumable
		for i := 0; i < rapid.SampledFrom([]int{1, 2, 1}).Draw(t, "uploads"); i++ {
			u := &resumable{name: fmt.Sprint("big", caseNo, "-", i), bucket: "b", ds: p.ds, ps: p.ps}
			full := cfg.ReedSolomon.BlockPerShard * p.ds
			n := genSize(t, full, p.ds)
			if n < 16 {
				n = 16
			}
			u.data = Content(caseNo*10+int64(i), n)
			if i > 0 && rapid.Bool().Draw(t, "same content") {
				u.data = us[0].data
				c.Class("same content")
			}
			u.digest = Digest(u.data)
			u.compress = rapid.Bool().Draw(t, "compress")
			u.wantCompress = u.compress || bucket.Compress
			us = append(us, u)
			b.post(u)
		}
		c.Logf("bucket %+v, checksum %t, block %d", bucket, cfg.Checksum, cfg.ReedSolomon.BlockPerShard)
		steps, restarts := 0, 0
		for {
			var open []*resumable
			for _, u := range us {
				if !u.done {
					open = append(open, u)
				}
			}
			if len(open) == 0 {
				break
			}
			u := open[rapid.IntRange(0, len(open)-1).Draw(t, "upload")]
			if u.path == "" || u.abandoned {
				restarts++
				u.abandoned, u.acked, u.completing = false, 0, false
				b.post(u)
				continue
			}
			if steps++; steps > 25 || restarts > 5 {
				// straight to the end
				off := b.mustHead(u)
				ans, err := b.patch(u, off, u.data[off:], false, int64(len(u.data))-off)
				b.c.Logf("  patch %s [%d,+%d), finally: %v %v", u.name, off, int64(len(u.data))-off, ans, err)
				if err != nil || ans.Status != 200 {
					t.Fatalf("%s: the rest is answered with %v %v", u.name, ans, err)
				}
				b.finished(u, ans)
				continue
			}
			b.step(u)
			if !u.done {
				b.nothingYet(u)
			}
		}
		if steps > 1 {
			c.NonTrivial()
		}
		for _, u := range us {
			b.verify(u, false)
		}
		b.verify(us[len(us)-1], true)
		b.quiet()
	})
}

// TestVerif_A04_digest uploads contents that do not match their digests.
func TestVerif_A04_digest(t *testing.T) {
	w := web()
	a := w.api
	vh.Check(t, vh.N(60, 600), "all", func(t *rapid.T, c *vh.Case) {
		a.Reset()
		c.NonTrivial()
		cfg := &pool.Config.Object
		cfg.DistinctTimeout = time.Millisecond
		cfg.Checksum = true
		w.Reset()
		b := &bigRun{t, c, a, w}
		p := genRS(t)
		a.Meta.SetBucket(entity.Bucket{Name: "b", Versioning: true, VersionRemains: 1000, Compress: p.compress,
			StoreStrategy: entity.ECReedSolomon, DataShards: p.ds, ParityShards: p.ps})
		caseNo++
		if p.size < 16 {
			p.size = 16
		}
		u := &resumable{name: fmt.Sprint("big", caseNo), bucket: "b", ds: p.ds, ps: p.ps, data: Content(caseNo, p.size)}
		good := append([]byte(nil), u.data...)
		u.digest = Digest(good)
		u.data[rapid.SampledFrom([]int{p.size - 1, 0, p.size / 2}).Draw(t, "wrong byte")] ^= 0x40
		b.post(u)
		for ends := false; !ends; {
			off := b.mustHead(u)
			n := int64(p.size) - off
			if rapid.Bool().Draw(t, "piece") {
				if n > u.block {
					n = u.block
				}
			}
			ends = off+n == int64(p.size)
			ans, err := b.patch(u, off, u.data[off:off+n], false, n)
			if err != nil {
				t.Fatalf("PATCH: %s", err)
			}
			c.Logf("patch [%d,+%d) of %d: %v", off, n, p.size, ans)
			if ends && ans.Status < 400 {
				t.Fatalf("content is accepted that does not match its digest: %v", ans)
			}
		}
		b.quiet()
		b.nothingYet(u)
		if n := len(a.Objects()); n > 0 {
			t.Fatalf("%d shards of refused content are stored", n)
		}
		// the right content is accepted
		u.data = good
		u.acked = 0
		b.post(u)
		ans, err := b.patch(u, 0, good, false, int64(len(good)))
		if err != nil || ans.Status != 200 {
			t.Fatalf("right content after the wrong one: %v %v", ans, err)
		}
		b.finished(u, ans)
		u.wantCompress = p.compress
		b.verify(u, true)
	})
}
