package disk_test

import (
	"bytes"
	"common/system/disk"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"testing"
	"testing/iotest"

	"pgregory.net/rapid"
	"verifharness/vh"
)

const page = 4096

func data(n, salt int) []byte {
	b := make([]byte, n)
	x := uint32(salt*7919 + 1)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x>>24) | 1 // never zero, so that padding shows
	}
	return b
}

func drawSize(t *rapid.T, l string) int {
	return rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 5*page), rapid.Map(rapid.IntRange(0, 40), func(i int) int {
		n := (i/8)*page + i%8 - 4
		if n < 0 {
			return 0
		}
		return n
	})).Draw(t, l)
}

// chunks gives its data in arbitrary pieces.
type chunks struct {
	data        []byte
	cuts        []int
	i           int
	end         error // instead of io.EOF
	ended       int
	eofWithData bool
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.data) == 0 {
		if c.ended++; c.ended > 5000 {
			panic("source is read again and again after it ended")
		}
		return 0, c.end
	}
	n := len(p)
	if len(c.cuts) > 0 {
		k := c.cuts[c.i%len(c.cuts)]
		c.i++
		if k < n {
			n = k
		}
	}
	n = copy(p[:n], c.data)
	c.data = c.data[n:]
	if len(c.data) == 0 && c.eofWithData {
		return n, c.end
	}
	return n, nil
}

func drawSource(t *rapid.T, l string, b []byte, end error) io.Reader {
	cuts := rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 10), rapid.IntRange(1, 9000)), 0, 4).Draw(t, l+"cuts")
	if len(cuts) > 0 && len(b) > 3000 {
		cuts = append(cuts, 5000)
	}
	return &chunks{data: b, cuts: cuts, end: end, eofWithData: rapid.Bool().Draw(t, l+"eof")}
}

func TestVerif_C05_padding(t *testing.T) {
	vh.Check(t, vh.N(4000, 40000), "a source of 0-20KB delivered in arbitrary pieces through the padding reader with a buffer of 1-8 blocks: output is the data followed by zeroes up to a whole block; a source which breaks off with an error of its own (also an unexpected EOF) is passed on as this error, and never padded; non-trivial: size not a whole number of blocks, source in pieces", func(t *rapid.T, c *vh.Case) {
		n := drawSize(t, "n")
		b := data(n, n)
		end := io.EOF
		if rapid.IntRange(0, 3).Draw(t, "broken") == 0 {
			end = rapid.SampledFrom([]error{io.ErrUnexpectedEOF, io.ErrClosedPipe, errors.New("broken")}).Draw(t, "end")
		}
		src := drawSource(t, "src", b, end)
		c.ClassIf(end != io.EOF, "failing source")
		buf := disk.AlignedBlock(rapid.IntRange(1, 8).Draw(t, "blocks") * page)
		c.Logf("%d bytes, cuts %v, buffer %d", n, src.(*chunks).cuts, len(buf))
		if n%page != 0 && len(src.(*chunks).cuts) > 0 {
			c.NonTrivial()
		}
		var out bytes.Buffer
		w, err := io.CopyBuffer(struct{ io.Writer }{&out}, disk.PaddingReader(src), buf)
		if end != io.EOF {
			if err != end {
				t.Fatalf("source breaks off with %v, got %v", end, err)
			}
			if !bytes.HasPrefix(b, out.Bytes()) {
				t.Fatalf("broken source of %d bytes: %d bytes came out which are not its first bytes", n, out.Len())
			}
			return
		}
		if err != nil {
			t.Fatal(err)
		}
		want := (n + page - 1) / page * page
		if int(w) != want || out.Len() != want || disk.AlignedSize(n) != want || int(disk.AlignedSize64(int64(n))) != want {
			t.Fatalf("%d bytes became %d (%d), aligned size says %d/%d, want %d", n, w, out.Len(), disk.AlignedSize(n), disk.AlignedSize64(int64(n)), want)
		}
		if !bytes.Equal(out.Bytes()[:n], b) || len(bytes.Trim(out.Bytes()[n:], "\x00")) > 0 {
			t.Fatalf("%d bytes came out changed", n)
		}
	})
}

func TestVerif_C05_limit(t *testing.T) {
	vh.Check(t, vh.N(4000, 40000), "reading 0..size+100 bytes through the limited reader with a block buffer from a source of 0-20KB: exactly the first min(limit,size) bytes, then end of file; non-trivial: limit not a whole number of blocks and below the size", func(t *rapid.T, c *vh.Case) {
		n := drawSize(t, "n")
		limit := rapid.OneOf(rapid.IntRange(0, n+100), rapid.SampledFrom([]int{0, 1, n, n + 1, page, page - 1, page + 1})).Draw(t, "limit")
		b := data(n, n)
		buf := disk.AlignedBlock(rapid.IntRange(1, 8).Draw(t, "blocks") * page)
		var src io.Reader = bytes.NewReader(b)
		if rapid.Bool().Draw(t, "dataErr") {
			src = iotest.DataErrReader(bytes.NewReader(b))
		}
		c.Logf("%d bytes, limit %d, buffer %d", n, limit, len(buf))
		if limit%page != 0 && limit < n {
			c.NonTrivial()
		}
		r := disk.LimitReader(src, int64(limit))
		var out bytes.Buffer
		if _, err := io.CopyBuffer(struct{ io.Writer }{&out}, r, buf); err != nil {
			t.Fatal(err)
		}
		want := b
		if limit < n {
			want = b[:limit]
		}
		if !bytes.Equal(out.Bytes(), want) {
			t.Fatalf("%d bytes limited to %d: got %d bytes", n, limit, out.Len())
		}
		if k, err := r.Read(buf); k != 0 || err != io.EOF {
			t.Fatalf("after the end: %d, %v", k, err)
		}
	})
}

func TestVerif_C05_multi(t *testing.T) {
	errBroken := errors.New("broken")
	vh.Check(t, vh.N(4000, 40000), "0-5 sources (some nested) read one after another with any buffer: the concatenation in order, full buffers until the end; a source that fails passes its error on with the bytes before it; non-trivial: two or more non-empty sources", func(t *rapid.T, c *vh.Case) {
		n := rapid.IntRange(0, 5).Draw(t, "n")
		var want []byte
		var rs []io.Reader
		var desc []int
		failAt := -1
		if rapid.IntRange(0, 2).Draw(t, "fails") == 0 && n > 0 {
			failAt = rapid.IntRange(0, n-1).Draw(t, "failAt")
		}
		ne := 0
		for i := 0; i < n; i++ {
			sz := rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 6000)).Draw(t, "sz")
			b := data(sz, i)
			desc = append(desc, sz)
			if sz > 0 {
				ne++
			}
			end := io.EOF
			if i == failAt {
				end = errBroken
			}
			if failAt < 0 || i <= failAt {
				want = append(want, b...)
			}
			rs = append(rs, drawSource(t, "src", b, end))
		}
		if n > 1 && rapid.Bool().Draw(t, "nest") {
			k := rapid.IntRange(0, n-1).Draw(t, "nestAt")
			rs = append(rs[:k:k], disk.MultiReader(rs[k:]...))
		}
		bs := rapid.OneOf(rapid.IntRange(1, 10), rapid.IntRange(1, 8192)).Draw(t, "buf")
		c.Logf("sizes %v fail at %d buffer %d", desc, failAt, bs)
		if ne > 1 {
			c.NonTrivial()
		}
		c.ClassIf(failAt >= 0, "failing source")
		r := disk.MultiReader(rs...)
		buf := make([]byte, bs)
		var out []byte
		var err error
		for i := 0; ; i++ {
			var k int
			k, err = r.Read(buf)
			out = append(out, buf[:k]...)
			if err != nil {
				break
			}
			if k < bs {
				t.Fatalf("read %d of %d bytes without an error", k, bs)
			}
			if i > len(want)+10 {
				t.Fatalf("no end after %d bytes", len(out))
			}
		}
		if failAt >= 0 {
			if err != errBroken {
				t.Fatalf("source %d broke, reader ended with %v", failAt, err)
			}
		} else if err != io.EOF {
			t.Fatalf("ended with %v", err)
		}
		if !bytes.Equal(out, want) {
			t.Fatalf("read %d bytes, want %d, or changed", len(out), len(want))
		}
	})
}

func TestVerif_C05_file(t *testing.T) {
	dir, err := os.MkdirTemp("", "c05")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	i := 0
	vh.Check(t, vh.N(600, 6000), "data written to a real direct-I/O file through the padding reader and read back from a block offset through the limited reader; non-trivial: read neither starts at 0 nor ends at the end", func(t *rapid.T, c *vh.Case) {
		n := drawSize(t, "n")
		b := data(n, n)
		i++
		p := filepath.Join(dir, fmt.Sprint("f", i%50))
		_ = os.Remove(p)
		f, err := disk.OpenFileDirectIO(p, os.O_CREATE|os.O_RDWR, 0o600)
		if err != nil {
			t.Skip("direct I/O is not possible here")
		}
		defer f.Close()
		if _, err = io.CopyBuffer(f, disk.PaddingReader(drawSource(t, "src", b, io.EOF)), disk.AlignedBlock(rapid.IntRange(1, 4).Draw(t, "wb")*page)); err != nil {
			t.Fatal(err)
		}
		off := 0
		if n > 0 {
			off = rapid.IntRange(0, (n-1)/page).Draw(t, "off") * page
		}
		sz := rapid.IntRange(0, n-off).Draw(t, "size")
		c.Logf("%d bytes, read %d at %d", n, sz, off)
		if off > 0 && off+sz < n {
			c.NonTrivial()
		}
		if _, err = f.Seek(int64(off), io.SeekStart); err != nil {
			t.Fatal(err)
		}
		var out bytes.Buffer
		if _, err = io.CopyBuffer(struct{ io.Writer }{&out}, disk.LimitReader(f, int64(sz)), disk.AlignedBlock(rapid.IntRange(1, 4).Draw(t, "rb")*page)); err != nil {
			t.Fatal(err)
		}
		if !bytes.Equal(out.Bytes(), b[off:off+sz]) {
			t.Fatalf("%d bytes: reading %d at %d gave %d bytes or other ones", n, sz, off, out.Len())
		}
	})
}
