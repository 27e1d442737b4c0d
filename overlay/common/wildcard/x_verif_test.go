package wildcard_test

import (
	"common/wildcard"
	"regexp"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verifharness/vh"
)

func TestVerif_C03_wildcard(t *testing.T) {
	vh.Check(t, vh.N(20000, 200000), "pattern over a small alphabet with up to 4 stars and question marks; text random or made from the pattern; compared with the equivalent regular expression; non-trivial: pattern has a star or question mark", func(t *rapid.T, c *vh.Case) {
		lit := rapid.SampledFrom([]string{"a", "b", "/", ".", "世", "\n", "A", "-", "ä"})
		var pat, text, re strings.Builder
		n := rapid.IntRange(0, 10).Draw(t, "n")
		stars := 0
		for i := 0; i < n; i++ {
			switch k := rapid.IntRange(0, 4).Draw(t, "k"); {
			case k == 0 && stars < 4:
				stars++
				pat.WriteString("*")
				re.WriteString("(?s:.*)")
				for j := rapid.IntRange(0, 3).Draw(t, "len"); j > 0; j-- {
					text.WriteString(lit.Draw(t, "x"))
				}
			case k == 1:
				pat.WriteString("?")
				re.WriteString("(?s:.)")
				text.WriteString(lit.Draw(t, "x"))
			default:
				l := lit.Draw(t, "l")
				pat.WriteString(l)
				re.WriteString(regexp.QuoteMeta(l))
				text.WriteString(l)
			}
		}
		s := text.String()
		switch rapid.IntRange(0, 3).Draw(t, "mut") {
		case 0:
			s = strings.Join(rapid.SliceOfN(lit, 0, 10).Draw(t, "other"), "")
		case 1:
			s += lit.Draw(t, "tail")
		case 2:
			if r := []rune(s); len(r) > 0 {
				i := rapid.IntRange(0, len(r)-1).Draw(t, "del")
				s = string(append(r[:i:i], r[i+1:]...))
			}
		}
		p := pat.String()
		c.Logf("%q %q", p, s)
		if strings.ContainsAny(p, "*?") {
			c.NonTrivial()
		}
		want := regexp.MustCompile("^(?:" + re.String() + ")$").MatchString(s)
		// $ without (?m) matches only at the end of text
		c.ClassIf(want, "match")
		if got := wildcard.Match(p, s); got != want {
			t.Fatalf("Match(%q, %q) = %v", p, s, got)
		}
		if want && !wildcard.MatchSimple(p, s) {
			t.Fatalf("MatchSimple(%q, %q) = false", p, s)
		}
	})
}
