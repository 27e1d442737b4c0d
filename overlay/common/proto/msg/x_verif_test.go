package msg_test

import (
	"common/hashslot"
	"common/proto/msg"
	"common/util"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"
	"testing"

	"github.com/sirupsen/logrus"
	"github.com/tinylib/msgp/msgp"
	"pgregory.net/rapid"
	"verifharness/vh"
)

func TestMain(m *testing.M) {
	logrus.SetOutput(io.Discard)
	os.Exit(m.Run())
}

func str(t *rapid.T, l string) string {
	// the classes of longer strings
	if rapid.IntRange(0, 99).Draw(t, l+"kind") == 57 {
		return strings.Repeat(rapid.StringN(1, 3, 9).Draw(t, l), rapid.SampledFrom([]int{30, 100, 1000, 17000, 33000, 70000}).Draw(t, l+"times"))
	}
	return rapid.OneOf(rapid.StringN(0, 8, 32), rapid.StringN(28, 40, 80), rapid.StringN(250, 270, 400),
		rapid.Map(rapid.SliceOfN(rapid.Byte(), 0, 6), func(b []byte) string { return string(b) })).Draw(t, l)
}

func i64(t *rapid.T, l string) int64 {
	return rapid.OneOf(rapid.Int64(), rapid.Int64Range(-200, 200), rapid.SampledFrom([]int64{127, 128, 255, 256, 65535, 65536, 1 << 31, 1<<32 - 1, -32, -33, -128, -129, -32768, -32769})).Draw(t, l)
}

func list(t *rapid.T, l string) []string {
	n := rapid.SampledFrom([]int{0, 1, 2, 15, 16, 17}).Draw(t, l+"n")
	var s []string
	if n == 17 && rapid.IntRange(0, 20).Draw(t, l+"many") == 11 {
		many := rapid.StringN(0, 3, 9).Draw(t, l)
		for i := 0; i < 70000; i++ {
			s = append(s, many)
		}
		return s
	}
	for i := 0; i < n; i++ {
		s = append(s, rapid.StringN(0, 10, 30).Draw(t, l))
	}
	return s
}

type record interface {
	msgp.Marshaler
	msgp.Unmarshaler
}

var kinds = map[string]struct {
	draw  func(t *rapid.T) record
	empty func() record
}{
	"metadata": {func(t *rapid.T) record {
		m := &msg.Metadata{Name: str(t, "name"), Bucket: str(t, "bucket"), CreateTime: i64(t, "ct"), UpdateTime: i64(t, "ut")}
		if rapid.Bool().Draw(t, "extra") {
			m.Extra = &msg.Extra{Total: int(i64(t, "tot")), FirstVersion: int(i64(t, "fv")), LastVersion: int(i64(t, "lv"))}
		}
		return m
	}, func() record { return &msg.Metadata{} }},
	"version": {func(t *rapid.T) record {
		return &msg.Version{Compress: rapid.Bool().Draw(t, "c"), StoreStrategy: rapid.Int8().Draw(t, "ss"), DataShards: int32(i64(t, "ds")), ParityShards: int32(i64(t, "ps")),
			ShardSize: i64(t, "sz"), Size: i64(t, "size"), Ts: i64(t, "ts"), Sequence: uint64(i64(t, "seq")), Hash: str(t, "hash"), UniqueId: str(t, "uid"), Locate: list(t, "loc")}
	}, func() record { return &msg.Version{} }},
	"bucket": {func(t *rapid.T) record {
		return &msg.Bucket{Versioning: rapid.Bool().Draw(t, "v"), Readonly: rapid.Bool().Draw(t, "r"), Compress: rapid.Bool().Draw(t, "c"), StoreStrategy: rapid.Int8().Draw(t, "ss"),
			DataShards: int32(i64(t, "ds")), ParityShards: int32(i64(t, "ps")), VersionRemains: int32(i64(t, "vr")), CreateTime: i64(t, "ct"), UpdateTime: i64(t, "ut"), Name: str(t, "name"), Policies: list(t, "pol")}
	}, func() record { return &msg.Bucket{} }},
	"slot": {func(t *rapid.T) record {
		return &hashslot.SlotInfo{GroupID: str(t, "g"), ServerID: str(t, "s"), Slots: list(t, "sl")}
	}, func() record { return &hashslot.SlotInfo{} }},
}

// norm makes nil and empty lists alike, and an absent summary like a zero one.
func norm(r record) string {
	v := reflect.ValueOf(r).Elem()
	s := v.Type().Name()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Ptr {
			if f.IsNil() {
				f = reflect.New(f.Type().Elem())
			}
			f = f.Elem()
		}
		s += fmt.Sprintf(" %s=%q", v.Type().Field(i).Name, fmt.Sprint(f.Interface()))
	}
	return s
}

func TestVerif_C02_record(t *testing.T) {
	vh.Check(t, vh.N(8000, 80000), "one record of each kind with field values across the encoding's size classes (short/long strings, arbitrary bytes, integers at class limits, 0-17 list entries), encoded and decoded; then every strict prefix of short encodings (64 random ones of long) must be refused; non-trivial: encoding longer than 60 bytes", func(t *rapid.T, c *vh.Case) {
		k := rapid.SampledFrom(vh.Keys(kinds)).Draw(t, "kind")
		r := kinds[k].draw(t)
		bt, err := util.EncodeMsgp(r)
		if err != nil {
			t.Fatalf("encode: %v", err)
		}
		c.Logf("%s %.200x", k, bt)
		c.Class(k)
		if len(bt) > 60 {
			c.NonTrivial()
		}
		back := kinds[k].empty()
		if err = util.DecodeMsgp(back, bt); err != nil {
			t.Fatalf("decode: %v", err)
		}
		if norm(r) != norm(back) {
			t.Fatalf("stored %s\nread   %s", norm(r), norm(back))
		}
		cut := func(i int) {
			b := make([]byte, i) // exact capacity, so that reading beyond the input is caught
			copy(b, bt)
			if err := util.DecodeMsgp(kinds[k].empty(), b[:i:i]); err == nil {
				t.Fatalf("%s cut to %d of %d bytes was accepted", k, i, len(bt))
			}
		}
		if len(bt) <= 200 {
			for i := range bt {
				cut(i)
			}
		} else {
			for i := 0; i < 64; i++ {
				cut(rapid.IntRange(0, len(bt)-1).Draw(t, "cut"))
			}
		}
	})
}

func decodeList(k string, bt []byte) ([]record, error) {
	b := make([]byte, len(bt))
	copy(b, bt)
	return util.DecodeArrayMsgp(b[:len(b):len(b)], func() record { return kinds[k].empty() })
}

func TestVerif_C02_list(t *testing.T) {
	vh.Check(t, vh.N(6000, 60000), "a list of 0-6 records of one kind, encoded and decoded; cut at every (short) or 40 random points, where the decoded result must be an error or, on a record boundary, the records before it; length prefixes enlarged or made endless must be refused; non-trivial: two or more records", func(t *rapid.T, c *vh.Case) {
		k := rapid.SampledFrom(vh.Keys(kinds)).Draw(t, "kind")
		n := rapid.SampledFrom([]int{3, 2, 4, 1, 0, 6, 5}).Draw(t, "n")
		var rs []record
		bounds := map[int]int{0: 0}
		for i := 0; i < n; i++ {
			rs = append(rs, kinds[k].draw(t))
			b, err := util.EncodeArrayMsgp(rs)
			if err != nil {
				t.Fatalf("encode: %v", err)
			}
			bounds[len(b)] = i + 1
		}
		bt, err := util.EncodeArrayMsgp(rs)
		if err != nil {
			t.Fatalf("encode: %v", err)
		}
		c.Logf("%s %d records %d bytes %.200x", k, n, len(bt), bt)
		if n > 1 {
			c.NonTrivial()
		}
		same := func(what string, got []record, want []record) {
			if len(got) != len(want) {
				t.Fatalf("%s: %d records, want %d", what, len(got), len(want))
			}
			for i := range got {
				if norm(got[i]) != norm(want[i]) {
					t.Fatalf("%s: record %d\nstored %s\nread   %s", what, i, norm(want[i]), norm(got[i]))
				}
			}
		}
		got, err := decodeList(k, bt)
		if err != nil {
			t.Fatalf("decode: %v", err)
		}
		same("list", got, rs)
		for i := 0; i < len(bt); i++ {
			p := i
			if len(bt) > 300 {
				if i >= 40 {
					break
				}
				p = rapid.IntRange(0, len(bt)-1).Draw(t, "cut")
			}
			got, err := decodeList(k, bt[:p])
			if m, ok := bounds[p]; ok {
				if err != nil {
					t.Fatalf("cut at record boundary %d: %v", p, err)
				}
				same("cut list", got, rs[:m])
			} else if err == nil {
				t.Fatalf("list cut to %d of %d bytes (not a record boundary) was accepted as %d records", p, len(bt), len(got))
			}
		}
		// damaged length prefix
		if n > 0 {
			var starts []int
			for b := range bounds {
				if b < len(bt) {
					starts = append(starts, b)
				}
			}
			at := starts[0]
			for _, s := range starts {
				if bounds[s] == rapid.IntRange(0, n-1).Draw(t, "which") {
					at = s
				}
			}
			bad := append([]byte(nil), bt...)
			rest := len(bt) - at - binary.MaxVarintLen32
			for i := 0; i < binary.MaxVarintLen32; i++ {
				bad[at+i] = 0
			}
			if rapid.Bool().Draw(t, "endless") {
				for i := 0; i < binary.MaxVarintLen32; i++ {
					bad[at+i] = 0xff
				}
			} else {
				binary.PutUvarint(bad[at:], uint64(rapid.OneOf(rapid.IntRange(rest+1, rest+20), rapid.IntRange(rest+1, 1<<34)).Draw(t, "size")))
			}
			if got, err := decodeList(k, bad); err == nil {
				t.Fatalf("length prefix at %d beyond the input was accepted: %d records", at, len(got))
			}
		}
	})
}

func TestVerif_C02_integers(t *testing.T) {
	vh.Check(t, vh.N(10000, 100000), "64-bit integers to bytes and back; strings to bytes and back without copying; non-trivial: value above 127", func(t *rapid.T, c *vh.Case) {
		v := rapid.Uint64().Draw(t, "v")
		if rapid.Bool().Draw(t, "shift") {
			v >>= uint(rapid.IntRange(0, 63).Draw(t, "sh"))
		}
		c.Logf("%d", v)
		if v > 127 {
			c.NonTrivial()
		}
		if got := util.BytesToInt(util.IntToBytes(v)); got != v {
			t.Fatalf("%d came back as %d", v, got)
		}
		s := rapid.StringN(0, 20, 60).Draw(t, "s")
		b := util.StrToBytes(s)
		if string(b) != s || len(b) != len(s) || cap(b) < len(b) || util.BytesToStr([]byte(s)) != s {
			t.Fatalf("%q came back as %q", s, b)
		}
		if fmt.Sprint(v) != util.UIntString(v) || fmt.Sprint(int64(v)) != util.IntString(int64(v)) || util.ToUint64(util.UIntString(v)) != v || util.ToInt64(util.IntString(int64(v))) != int64(v) {
			t.Fatalf("decimal form of %d wrong", v)
		}
	})
}
