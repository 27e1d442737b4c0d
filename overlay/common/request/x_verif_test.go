package request_test

import (
	"common/request"
	"fmt"
	"io"
	"os"
	"strings"
	"testing"

	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
	"verifharness/vh"
)

func TestMain(m *testing.M) {
	logrus.SetOutput(io.Discard)
	os.Exit(m.Run())
}

func TestVerif_C03_range(t *testing.T) {
	vh.Check(t, vh.N(10000, 100000), "range headers of 1-4 first-last or first- items with optional blanks after commas, parsed into a fresh or used value; non-trivial: a last position or more than one item", func(t *rapid.T, c *vh.Case) {
		n := rapid.IntRange(1, 4).Draw(t, "n")
		var items []string
		var want []request.Int64Tuple
		for i := 0; i < n; i++ {
			a := rapid.OneOf(rapid.Int64Range(0, 10), rapid.Int64Range(0, 1<<62)).Draw(t, "a")
			if rapid.Bool().Draw(t, "open") {
				items = append(items, fmt.Sprintf("%d-", a))
				want = append(want, request.Int64Tuple{First: a})
			} else {
				b := rapid.Int64Range(a, 1<<62).Draw(t, "b")
				items = append(items, fmt.Sprintf("%d-%d", a, b))
				want = append(want, request.Int64Tuple{First: a, Second: b})
				c.NonTrivial()
			}
		}
		if n > 1 {
			c.NonTrivial()
		}
		h := "bytes=" + strings.Join(items, rapid.SampledFrom([]string{",", ", "}).Draw(t, "sep"))
		c.Logf("%s", h)
		var rg request.Range
		if rapid.Bool().Draw(t, "used") {
			rg.ConvertFrom("bytes=7-9,11-12")
		}
		if !rg.ConvertFrom(h) {
			t.Fatalf("%q refused", h)
		}
		if fmt.Sprint(rg.Bytes) != fmt.Sprint(want) {
			t.Fatalf("%q parsed as %v", h, rg.Bytes)
		}
		if f, ok := rg.GetFirstBytes(); !ok || f != want[0] || rg.FirstBytes() != want[0] {
			t.Fatalf("%q: first item %v", h, f)
		}
	})
}

func TestVerif_C03_rangeGarbage(t *testing.T) {
	vh.Check(t, vh.N(10000, 100000), "arbitrary header text with and without bytes=; must not crash, and text without bytes= is refused; non-trivial: contains bytes=", func(t *rapid.T, c *vh.Case) {
		s := rapid.OneOf(rapid.String(), rapid.StringMatching(`(bytes=)?[0-9,\- a]{0,12}`)).Draw(t, "s")
		c.Logf("%q", s)
		var rg request.Range
		ok := rg.ConvertFrom(s)
		if strings.Contains(s, "bytes=") {
			c.NonTrivial()
		} else if ok {
			t.Fatalf("%q accepted", s)
		}
		rg.GetFirstBytes()
		rg.FirstBytes()
	})
}
