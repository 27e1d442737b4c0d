package verifenv

import (
	"apiserver/internal/entity"
	"apiserver/internal/usecase/pool"
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net/url"
	"strings"
	"sync"
	"testing"
	"time"

	"verifharness/vh"

	"pgregory.net/rapid"
)

// strikes decides which of the calls fail: the nth, and all further ones unless once.
func strikes(nth int, once bool) (strike func() bool, hits func() int) {
	var mu sync.Mutex
	seen, hit := 0, 0
	return func() bool {
			mu.Lock()
			defer mu.Unlock()
			seen++
			if seen == nth || seen > nth && !once {
				hit++
				return true
			}
			return false
		}, func() int {
			mu.Lock()
			defer mu.Unlock()
			return hit
		}
}

// shardsOf finds all shards of the version where it is recorded to be.
func shardsOf(a *API, v *entity.Version) error {
	if len(v.Locate) != v.DataShards+v.ParityShards {
		return fmt.Errorf("%d locations of %d shards: %q", len(v.Locate), v.DataShards+v.ParityShards, v.Locate)
	}
	for i, loc := range v.Locate {
		d := a.At(loc)
		if d == nil {
			return fmt.Errorf("shard %d is at %q", i, loc)
		}
		o := d.Object(fmt.Sprint(v.Hash, ".", i))
		if o == nil {
			return fmt.Errorf("shard %d is not at its location", i)
		}
		if v.StoreStrategy == entity.MultiReplication && int64(len(o.Data)) != v.Size || v.StoreStrategy != entity.MultiReplication && len(o.Data) != v.ShardSize {
			return fmt.Errorf("shard %d has %d bytes, the version is %+v", i, len(o.Data), v)
		}
	}
	return nil
}

func names(a *API) map[string]bool {
	m := map[string]bool{}
	for k := range a.Objects() {
		m[k] = true
	}
	return m
}

func added(a *API, before map[string]bool) (r []string) {
	for k := range a.Objects() {
		if !before[k] {
			r = append(r, k)
		}
	}
	return
}

// TestVerif_A06_upload uploads wrong, broken and good contents while data servers fail.
func TestVerif_A06_upload(t *testing.T) {
	w := web()
	a := w.api
	vh.Check(t, vh.N(700, 9000), "upload with a wrong digest, a broken body, a failing server or incomplete answers to locating", func(t *rapid.T, c *vh.Case) {
		a.Reset()
		cfg := &pool.Config.Object
		cfg.Checksum = rapid.Bool().Draw(t, "checksum")
		cfg.DistinctTimeout = time.Millisecond
		cfg.Replication.CopiesCount = rapid.IntRange(1, 4).Draw(t, "copies")
		cfg.ReedSolomon.DataShards = rapid.IntRange(1, 4).Draw(t, "data")
		cfg.ReedSolomon.ParityShards = rapid.IntRange(0, 3).Draw(t, "parity")
		w.Reset()
		a.Meta.SetBucket(entity.Bucket{Name: "b", Versioning: true, VersionRemains: 1000})
		b := &bigRun{t, c, a, w}
		caseNo++
		name := fmt.Sprint("u", caseNo)
		ss := rapid.SampledFrom([]entity.ObjectStrategy{entity.ECReedSolomon, entity.MultiReplication}).Draw(t, "strategy")
		size := rapid.SampledFrom([]int{65536, 100, 70000, 32768, 131072, 200000, 33000, 1}).Draw(t, "size")
		if size == 1 {
			size = rapid.IntRange(1, 300000).Draw(t, "any size")
		}
		data := Content(caseNo, size)
		digest := Digest(data)
		q := url.Values{"ss": {fmt.Sprint(int(ss))}}
		if rapid.Bool().Draw(t, "compress") {
			q.Set("compress", "true")
		}
		put := func(name string, body io.Reader, digest string) (Answer, error) {
			ans, err := w.Call("PUT", "/v1/objects/"+name, q, map[string]string{"bucket": "b", "digest": digest}, body, int64(size))
			b.quiet()
			return ans, err
		}
		good := func(what string, ans Answer, err error, name string) {
			if err != nil || ans.Status != 201 {
				t.Fatalf("%s: %v %v", what, ans, err)
			}
			vs := a.Meta.Versions("b", name)
			if len(vs) != 1 {
				t.Fatalf("%s makes %d versions", what, len(vs))
			}
			if err := shardsOf(a, vs[0]); err != nil {
				t.Fatalf("%s: %s", what, err)
			}
			got, err := w.Call("GET", "/v1/objects/"+name, nil, map[string]string{"bucket": "b"}, nil, 0)
			if err != nil || got.Status != 200 || got.Err != nil || !bytes.Equal(got.Body, data) {
				t.Fatalf("%s is read back as %v %v", what, got, err)
			}
		}
		none := func(what string) {
			if vs := a.Meta.All(); len(vs) > 0 {
				t.Fatalf("%s leaves %v in the metadata", what, vs)
			}
		}
		kind := rapid.SampledFrom([]string{"fault", "broken", "digest", "located", "fault", "good"}).Draw(t, "kind")
		c.Class(kind)
		c.Logf("%s, %d bytes, strategy %d, %v, checksum %t, %+v %+v", kind, size, ss, q, cfg.Checksum, cfg.ReedSolomon, cfg.Replication)
		switch kind {
		case "good":
			ans, err := put(name, bytes.NewReader(data), digest)
			good("a good upload", ans, err, name)
		case "digest":
			c.NonTrivial()
			wrong := append([]byte(nil), data...)
			wrong[rapid.SampledFrom([]int{size - 1, 0, size / 2}).Draw(t, "at")] ^= 0x10
			ans, err := put(name, bytes.NewReader(data), rapid.SampledFrom([]string{Digest(wrong), strings.ToUpper(digest) + "0", digest[:63], "x"}).Draw(t, "digest"))
			if !cfg.Checksum {
				good("an upload without checksums", ans, err, name)
				return
			}
			c.Logf("%v %v", ans, err)
			if err != nil || ans.Status != 400 {
				t.Fatalf("an upload of a wrong digest: %v %v", ans, err)
			}
			none("an upload of a wrong digest")
			if m := a.Objects(); len(m) > 0 {
				t.Fatalf("an upload of a wrong digest leaves %v", vh.Keys(m))
			}
			if !Eventually(patience, func() bool { return a.Temps() == 0 }) {
				t.Fatalf("an upload of a wrong digest leaves %d unfinished uploads", a.Temps())
			}
		case "broken":
			c.NonTrivial()
			at := rapid.SampledFrom([]int{size - 1, 0, 32768, 65536, size / 2}).Draw(t, "at")
			if at >= size {
				at = size - 1
			}
			sent := data[:at]
			if rapid.Bool().Draw(t, "digest of what is sent") {
				digest = Digest(sent)
			}
			w.Fresh()
			ans, err := put(name, Interrupted(sent), digest)
			c.Logf("breaks at %d: %v %v", at, ans, err)
			if err == nil && ans.Status < 400 {
				t.Fatalf("a broken upload: %v", ans)
			}
			none("a broken upload")
			if m := a.Objects(); len(m) > 0 {
				t.Fatalf("a broken upload leaves %v", vh.Keys(m))
			}
			if !Eventually(patience, func() bool { return a.Temps() == 0 }) {
				t.Fatalf("a broken upload leaves %d unfinished uploads", a.Temps())
			}
		case "fault":
			op := rapid.SampledFrom([]string{"patch temp", "put temp", "post temp"}).Draw(t, "op")
			late, reset := rapid.Bool().Draw(t, "late"), rapid.Bool().Draw(t, "reset")
			status := rapid.SampledFrom([]int{500, 404, 503, 400, 409, 202}).Draw(t, "status")
			strike, hits := strikes(rapid.IntRange(1, 5).Draw(t, "nth"), rapid.Bool().Draw(t, "once"))
			a.SetFault(func(_ *DataServer, o, _ string) (f Fault) {
				if o != op || !strike() {
					return
				}
				f.Late = late
				if f.Reset = reset; !reset {
					f.Status = status
				}
				return
			})
			ans, err := put(name, bytes.NewReader(data), digest)
			a.SetFault(nil)
			c.Logf("failing %s (late %t, reset %t, status %d), %d times: %v %v", op, late, reset, status, hits(), ans, err)
			if hits() == 0 || err == nil && ans.Status < 400 && reset {
				// nothing failed, or it has been tried again
				good("an upload", ans, err, name)
				return
			}
			c.NonTrivial()
			if err != nil || ans.Status < 400 {
				t.Fatalf("an upload refused by a server: %v %v", ans, err)
			}
			none("an upload refused by a server")
			if m := a.Objects(); op != "put temp" && len(m) > 0 {
				t.Fatalf("an upload refused by a server leaves %v", vh.Keys(m))
			}
			if op == "patch temp" && !Eventually(patience, func() bool { return a.Temps() == 0 }) {
				t.Fatalf("an upload refused by a server leaves %d unfinished uploads at the others", a.Temps())
			}
			// nothing is left that stands in the way of another attempt
			ans, err = put(name, bytes.NewReader(data), digest)
			good("an upload after a failed one", ans, err, name)
		case "located":
			cfg.DistinctSize = 0
			cfg.DistinctTimeout = 30 * time.Millisecond
			a.SetLocate(func(string, int) []string { return nil })
			a.Pick.Set(rapid.IntRange(0, 6).Draw(t, "first server"))
			ans, err := put(name, bytes.NewReader(data), digest)
			good("the first upload", ans, err, name)
			first := a.Meta.Versions("b", name)[0]
			n := len(first.Locate)
			lost := map[int]bool{}
			for _, i := range rapid.Permutation(seqOf(n)).Draw(t, "order")[:rapid.IntRange(0, n).Draw(t, "lost")] {
				lost[i] = true
				if rapid.Bool().Draw(t, "gone") {
					a.At(first.Locate[i]).Lose(fmt.Sprint(first.Hash, ".", i))
				}
			}
			noise := rapid.SampledFrom([]string{"", "twice", "malformed", "both"}).Draw(t, "noise")
			rng := rand.New(rand.NewSource(int64(rapid.IntRange(0, 1<<30).Draw(t, "seed"))))
			a.SetLocate(func(hash string, idx int) (r []string) {
				if !lost[idx] {
					r = a.Located(hash, idx)
					if noise == "twice" || noise == "both" {
						r = append(r, r...)
					}
				}
				if noise == "malformed" || noise == "both" {
					bad := []string{"", "x", "#", "#0", "a#b#1", fmt.Sprint("127.0.0.1:1#", n), "127.0.0.1:1#-1", "127.0.0.1:1#", "127.0.0.1:1#9999999999999999999"}
					r = append(r, bad[rng.Intn(len(bad))])
					rng.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
				}
				return
			})
			if len(lost) > 0 || noise != "" {
				c.NonTrivial()
			}
			c.ClassIf(len(lost) == 0, "all located")
			a.Pick.Set(rapid.IntRange(0, 6).Draw(t, "next server"))
			uploads := len(a.Log())
			ans, err = put(name+"-again", bytes.NewReader(data), digest)
			stored := false
			for _, l := range a.Log()[uploads:] {
				stored = stored || strings.Contains(l, "post temp")
			}
			c.Logf("located all but %v, noise %q: %v %v, uploaded %t", lost, noise, ans, err, stored)
			if !stored {
				c.Class("answered from stored content")
			}
			if !stored && len(lost) > 0 {
				t.Fatalf("an upload is answered from stored content though the shards %v are not located", lost)
			}
			good("an upload of stored content", ans, err, name+"-again")
		}
	})
}

// TestVerif_A06_hash names stored contents: shards laid out differently must not share names.
func TestVerif_A06_hash(t *testing.T) {
	a := web().api
	type key struct {
		digest   string
		ss       entity.ObjectStrategy
		ds, ps   int
		compress bool
	}
	vh.Check(t, vh.N(3000, 60000), "the contents are to be stored differently", func(t *rapid.T, c *vh.Case) {
		draw := func(label string) (k key) {
			k.digest = rapid.SampledFrom([]string{"d", "d1", "d11", "", "1", "2"}).Draw(t, label+" digest")
			k.ss = rapid.SampledFrom([]entity.ObjectStrategy{entity.ECReedSolomon, entity.ECReedSolomon, entity.MultiReplication}).Draw(t, label+" strategy")
			k.ds, k.ps = rapid.IntRange(1, 13).Draw(t, label+" data"), rapid.IntRange(0, 13).Draw(t, label+" parity")
			k.compress = rapid.Bool().Draw(t, label+" compress")
			return
		}
		x := draw("x")
		y := x
		switch rapid.IntRange(0, 3).Draw(t, "change") {
		case 0:
			y = draw("y")
		case 1:
			// the same digits, divided elsewhere
			all := fmt.Sprintf("%d%d", x.ds, x.ps)
			i := rapid.IntRange(1, len(all)).Draw(t, "cut")
			if i < len(all) {
				_, _ = fmt.Sscan(all[:i], &y.ds)
				_, _ = fmt.Sscan(all[i:], &y.ps)
			}
		case 2:
			y.ds, y.ps = x.ps, x.ds
		}
		hash := func(k key) string { return a.Service.UniqueHash(k.digest, k.ss, k.ds, k.ps, k.compress) }
		hx, hy := hash(x), hash(y)
		c.Logf("%+v %+v: %s %s", x, y, hx, hy)
		if x == y {
			if hx != hy {
				t.Fatalf("%+v is named %s and %s", x, hx, hy)
			}
			return
		}
		ex, ey := x, y
		for _, k := range []*key{&ex, &ey} {
			if k.ss == entity.MultiReplication {
				k.ds, k.ps = 0, 0
			}
		}
		if ex == ey {
			return
		}
		c.NonTrivial()
		if hx == hy {
			t.Fatalf("%+v and %+v are stored under the same name %s", x, y, hx)
		}
	})
}
