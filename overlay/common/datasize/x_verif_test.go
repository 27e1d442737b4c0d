package datasize_test

import (
	"common/datasize"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verifharness/vh"
)

var pow = map[string]uint{"": 0, "B": 0, "KB": 10, "MB": 20, "GB": 30, "TB": 40, "PB": 50}

func TestVerif_C03_parseSize(t *testing.T) {
	limit := new(big.Int).Lsh(big.NewInt(1), 60) // 1024PB
	vh.Check(t, vh.N(20000, 200000), "number and unit texts in any letter case, small to beyond 64 bits, compared with big-integer arithmetic; sizes of 1024PB and more spelled with a unit must be refused; non-trivial: number has a unit above B or is too large", func(t *rapid.T, c *vh.Case) {
		num := rapid.OneOf(
			rapid.Map(rapid.IntRange(0, 5000), func(i int) string { return fmt.Sprint(i) }),
			rapid.StringMatching(`[0-9]{1,22}`)).Draw(t, "num")
		u := rapid.SampledFrom([]string{"", "B", "KB", "MB", "GB", "TB", "PB"}).Draw(t, "unit")
		s := num + u
		switch rapid.IntRange(0, 2).Draw(t, "case") {
		case 0:
			s = strings.ToLower(s)
		case 1:
			if len(u) == 2 {
				s = num + strings.ToLower(u[:1]) + u[1:]
			}
		}
		c.Logf("%s", s)
		v, _ := new(big.Int).SetString(num, 10)
		exp := new(big.Int).Lsh(v, pow[u])
		got, err := datasize.Parse(s)
		if len(u) == 2 || !v.IsInt64() {
			c.NonTrivial()
		}
		if !v.IsInt64() || (u != "" && exp.Cmp(limit) >= 0) {
			c.Class("refused")
			if u == "B" && v.IsInt64() {
				return // plain bytes above the limit: either answer
			}
			if err == nil {
				t.Fatalf("Parse(%q) = %d, the value %v is too large", s, uint64(got), exp)
			}
			return
		}
		if err != nil {
			t.Fatalf("Parse(%q): %v", s, err)
		}
		if !exp.IsUint64() || exp.Uint64() != uint64(got) || got.Byte() != exp.Uint64() {
			t.Fatalf("Parse(%q) = %d, want %v", s, uint64(got), exp)
		}
		if got.KiloByte() != exp.Uint64()>>10 || got.MegaByte() != exp.Uint64()>>20 || got.GigaByte() != exp.Uint64()>>30 || got.TeraByte() != exp.Uint64()>>40 || got.PetaByte() != exp.Uint64()>>50 {
			t.Fatalf("units of %q wrong", s)
		}
	})
}

func TestVerif_C03_printSize(t *testing.T) {
	vh.Check(t, vh.N(20000, 200000), "sizes from 0 to 1023PB (uniform in magnitude, at and around powers of 1024) are printed and parsed back; the difference must be at most half the printed unit; non-trivial: at least 1KB", func(t *rapid.T, c *vh.Case) {
		var d uint64
		switch rapid.IntRange(0, 2).Draw(t, "kind") {
		case 0:
			sh := rapid.IntRange(0, 59).Draw(t, "bits")
			d = rapid.Uint64Range(0, 1<<sh).Draw(t, "d")
		case 1:
			sh := rapid.IntRange(0, 5).Draw(t, "unit")
			d = uint64(int64(uint64(rapid.IntRange(1, 1023).Draw(t, "n"))<<(10*sh)) + int64(rapid.IntRange(-2, 2).Draw(t, "off")))
			if int64(d) < 0 {
				d = 0
			}
		case 2:
			d = rapid.Uint64Range(0, 4096).Draw(t, "small")
		}
		if d > 1023<<50 {
			d = 1023 << 50
		}
		c.Logf("%d", d)
		if d >= 1024 {
			c.NonTrivial()
		}
		s := datasize.DataSize(d).String()
		back, err := datasize.Parse(s)
		if err != nil {
			t.Fatalf("%d prints as %q, which does not parse: %v", d, s, err)
		}
		i := strings.IndexAny(s, "BKMGTP")
		unit := uint64(1) << pow[s[i:]]
		diff := uint64(back) - d
		if uint64(back) < d {
			diff = d - uint64(back)
		}
		if diff > unit/2 {
			t.Fatalf("%d prints as %q, which is %d", d, s, uint64(back))
		}
	})
}

func TestVerif_C03_garbageSize(t *testing.T) {
	vh.Check(t, vh.N(10000, 100000), "arbitrary text; the parser must not crash and accepts only digits followed by a unit; non-trivial: contains a digit", func(t *rapid.T, c *vh.Case) {
		s := rapid.OneOf(rapid.String(), rapid.StringMatching(`[0-9 .+-]{0,4}[bBkKmMgGtTpPxX ]{0,3}`)).Draw(t, "s")
		c.Logf("%q", s)
		if strings.ContainsAny(s, "0123456789") {
			c.NonTrivial()
		}
		_, err := datasize.Parse(s)
		up := strings.ToUpper(s)
		n := len(up) - len(strings.TrimLeft(up, "0123456789"))
		_, isUnit := pow[up[n:]]
		if err == nil && (n == 0 || !isUnit) {
			t.Fatalf("Parse(%q) accepted", s)
		}
	})
}
