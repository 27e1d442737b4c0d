package service_test

import (
	"bytes"
	"compress/gzip"
	"errors"
	"io"
	. "metaserver/internal/verifenv"
	"os"
	"testing"

	"github.com/hashicorp/raft"
	bolt "go.etcd.io/bbolt"
	"pgregory.net/rapid"
	"verifharness/vh"
)

var errSink = errors.New("disk is full")

// sink keeps a snapshot; it fails after limit bytes if limit >= 0.
type sink struct {
	bytes.Buffer
	limit             int
	failed            bool
	closed, cancelled bool
}

func (s *sink) Write(p []byte) (int, error) {
	if s.limit >= 0 && s.Len()+len(p) > s.limit {
		s.failed = true
		n, _ := s.Buffer.Write(p[:s.limit-s.Len()])
		return n, errSink
	}
	return s.Buffer.Write(p)
}
func (s *sink) ID() string    { return "snap" }
func (s *sink) Close() error  { s.closed = true; return nil }
func (s *sink) Cancel() error { s.cancelled = true; return nil }

// drive applies n generated commands to e, one by one or in batches, and reads in between.
func drive(t *rapid.T, e *Env, m *Model, n int, index *uint64, uid *int) {
	for i := 0; i < n; {
		k := rapid.IntRange(1, 6).Draw(t, "batch")
		var logs []*raft.Log
		var cmds []*command
		for ; k > 0 && i < n; k-- {
			*index++
			c := genCommand(t, m, *index, uid)
			cmds = append(cmds, c)
			logs = append(logs, c.log)
			i++
		}
		for j, r := range apply(e.FSM, logs) {
			if d := cmpAnswer(cmds[j], "the state machine", answerOf(r)); d != "" {
				t.Fatalf("%s", d)
			}
		}
		for _, id := range idPool {
			if rapid.IntRange(0, 3).Draw(t, "read") == 0 {
				_, _, _ = e.Meta.GetMetadata(id, 0, true)
				_, _ = e.Meta.GetVersion(id, 1)
			}
		}
		for _, b := range bktPool {
			_, _ = e.Buckets.Get(b)
		}
	}
}

// same tells if both snapshots unpack to the same bytes without an error.
func same(a, b []byte) bool {
	unpack := func(p []byte) ([]byte, error) {
		rd, err := gzip.NewReader(bytes.NewReader(p))
		if err != nil {
			return nil, err
		}
		return io.ReadAll(rd)
	}
	x, err := unpack(a)
	if err != nil {
		return false
	}
	y, err := unpack(b)
	return err == nil && bytes.Equal(x, y)
}

// noDatabase packs bytes that are not a database, made of the snapshot's.
func noDatabase(t *rapid.T, full []byte) []byte {
	rd, err := gzip.NewReader(bytes.NewReader(full))
	if err != nil {
		t.Fatal(err)
	}
	img, err := io.ReadAll(rd)
	if err != nil {
		t.Fatal(err)
	}
	page := os.Getpagesize()
	switch rapid.IntRange(0, 2).Draw(t, "image") {
	case 0: // both pages that describe the database are gone
		for i := 0; i < 2*page; i++ {
			img[i] = 0
		}
	case 1: // a single page of text
		img = bytes.Repeat([]byte("text"), rapid.IntRange(1, 5000).Draw(t, "n"))
	case 2: // its head is missing
		img = img[2*page:]
	}
	var out bytes.Buffer
	w := gzip.NewWriter(&out)
	_, _ = w.Write(img)
	_ = w.Close()
	return out.Bytes()
}

// TestVerif_M06_snapshot snapshots one replica and restores others, which hold something else.
func TestVerif_M06_snapshot(t *testing.T) {
	vh.Check(t, vh.N(500, 6000), "a snapshot with at least one version was restored over other state", func(t *rapid.T, c *vh.Case) {
		src, dst := New(nil, nil), New(nil, nil)
		defer src.Close()
		defer func() { dst.Close() }()
		src.Grow()
		dst.Grow()
		var txs []*bolt.Tx
		endReads := func() {
			for _, tx := range txs {
				_ = tx.Rollback()
			}
			txs = nil
		}
		defer endReads()
		ms, md := NewModel(), NewModel()
		var is, id uint64
		us, ud := 0, 1000
		drive(t, src, ms, rapid.IntRange(0, 25).Draw(t, "src"), &is, &us)
		drive(t, dst, md, rapid.IntRange(0, 25).Draw(t, "dst"), &id, &ud)
		rounds := rapid.IntRange(1, 3).Draw(t, "rounds")
		for r := 0; r < rounds; r++ {
			snap, err := src.FSM.Snapshot()
			if err != nil {
				t.Fatalf("snapshot: %v", err)
			}
			released := false
			release := func() {
				if !released {
					released = true
					snap.Release()
				}
			}
			defer release()
			at := ms.Clone()
			vers := 0
			for _, o := range at.Objs {
				vers += len(o.Vers)
			}
			atIndex := is
			// writes after the moment of the snapshot are not in it
			if rapid.Bool().Draw(t, "later") {
				drive(t, src, ms, rapid.IntRange(1, 10).Draw(t, "more"), &is, &us)
				c.Class("writes before the snapshot is persisted")
			}
			sk := &sink{limit: -1}
			if err = snap.Persist(sk); err != nil || !sk.closed || sk.cancelled {
				t.Fatalf("persist: %v, closed %v, cancelled %v", err, sk.closed, sk.cancelled)
			}
			full := append([]byte{}, sk.Bytes()...)
			if rapid.IntRange(0, 2).Draw(t, "sinkFails") == 0 {
				// a failing sink must not be taken for a snapshot
				bad := &sink{limit: rapid.IntRange(0, len(full)-1).Draw(t, "limit")}
				err := snap.Persist(bad)
				if err == nil {
					t.Fatalf("persist to a sink failing after %d of %d bytes: no error", bad.limit, len(full))
				}
				if bad.closed && !bad.cancelled {
					t.Fatalf("persist to a sink failing after %d bytes: committed", bad.limit)
				}
				c.Class("failing sink")
			}
			release()
			// damaged snapshots change nothing
			for rapid.IntRange(0, 2).Draw(t, "damage") == 0 {
				bad := append([]byte{}, full...)
				switch rapid.IntRange(0, 2).Draw(t, "how") {
				case 0:
					bad = bad[:rapid.IntRange(0, len(bad)-1).Draw(t, "at")]
				case 1:
					// packed well, but no database
					bad = noDatabase(t, full)
					c.Class("snapshot of something else")
				default:
					// behind the header, whose time and name no checksum covers
					i := rapid.IntRange(10, len(bad)-1).Draw(t, "flipAt")
					bad[i] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
				}
				if same(bad, full) {
					// padding bits
					continue
				}
				var err error
				func() {
					defer func() {
						if p := recover(); p != nil {
							t.Fatalf("restore of a damaged snapshot panics: %v", p)
						}
					}()
					err = dst.FSM.Restore(io.NopCloser(bytes.NewReader(bad)))
				}()
				if err == nil {
					t.Fatalf("a damaged snapshot (%d of %d bytes) was restored", len(bad), len(full))
				}
				if d := dst.Check(md, idPool...); d != "" {
					t.Fatalf("after refusing a damaged snapshot: %s", d)
				}
				if rapid.Bool().Draw(t, "goOn") {
					drive(t, dst, md, rapid.IntRange(1, 5).Draw(t, "inBetween"), &id, &ud)
					if d := dst.Check(md, idPool...); d != "" {
						t.Fatalf("commands after refusing a damaged snapshot: %s", d)
					}
				}
				c.Class("damaged snapshot")
			}
			// a read that is still under way keeps the old file open
			if rapid.IntRange(0, 2).Draw(t, "reader") == 0 {
				tx, err := dst.Storage.DB().Begin(false)
				if err != nil {
					t.Fatalf("begin: %v", err)
				}
				txs = append(txs, tx)
				c.Class("reader during restore")
			}
			if err = dst.FSM.Restore(io.NopCloser(bytes.NewReader(full))); err != nil {
				t.Fatalf("restore: %v", err)
			}
			Tune(dst.Storage)
			md, id, ud = at.Clone(), atIndex, 1000*(r+2)
			if d := dst.Check(md, idPool...); d != "" {
				t.Fatalf("after restore %d: %s", r+1, d)
			}
			drive(t, dst, md, rapid.IntRange(0, 10).Draw(t, "after"), &id, &ud)
			if d := dst.Check(md, idPool...); d != "" {
				t.Fatalf("commands after restore %d: %s", r+1, d)
			}
			stop := rapid.IntRange(0, 2).Draw(t, "stop") == 0
			if stop {
				// the server ends and starts again
				done := make(chan error, 1)
				st := dst.Storage
				go func() { done <- st.Stop() }()
				endReads()
				if err := <-done; err != nil {
					t.Fatalf("stop after restore: %v", err)
				}
				dst.Wire(Open(dst.Path), nil, nil)
				if d := dst.Check(md, idPool...); d != "" {
					t.Fatalf("restarted after restore %d: %s", r+1, d)
				}
				c.Class("restart after restore")
			}
			c.Logf("round %d: %d objects, %d versions, %d buckets, stop %v", r, len(at.Objs), vers, len(at.Buckets), stop)
			if vers > 0 && len(md.Objs) > 0 {
				c.NonTrivial()
			}
			drive(t, src, ms, rapid.IntRange(0, 8).Draw(t, "srcMore"), &is, &us)
		}
		if d := src.Check(ms, idPool...); d != "" {
			t.Fatalf("the snapshotted replica: %s", d)
		}
	})
}
