// Package vh is the support library of the property checks: it runs rapid
// properties with deterministic seeds, counts what was generated and leaves a
// report behind for the runner (check.py).
package vh

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"
)

// Report is written per test to $VERIF_OUT/<test>.json.
type Report struct {
	Test        string         `json:"test"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Distinct    int            `json:"distinct_nontrivial"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Failed      bool           `json:"failed"`
}

// Stats counts the cases of one property test.
type Stats struct {
	mu   sync.Mutex
	r    Report
	seen map[uint64]struct{}
}

// Case is one generated case.
type Case struct {
	s       *Stats
	nt      bool
	desc    strings.Builder
	classes map[string]struct{}
}

// Logf adds to the description of the case (used as a sample and to tell
// distinct cases apart).
func (c *Case) Logf(format string, a ...any) {
	if c.desc.Len() < 1<<14 {
		fmt.Fprintf(&c.desc, format, a...)
		c.desc.WriteByte(';')
	}
}

// NonTrivial marks the case as non-trivial.
func (c *Case) NonTrivial() { c.nt = true }

// Class counts the case in a named class.
func (c *Case) Class(name string) { c.classes[name] = struct{}{} }

// ClassIf counts the case in a class if cond.
func (c *Case) ClassIf(cond bool, name string) bool {
	if cond {
		c.Class(name)
	}
	return cond
}

func (c *Case) end() {
	s := c.s
	s.mu.Lock()
	defer s.mu.Unlock()
	s.r.Evaluations++
	for k := range c.classes {
		s.r.Classes[k]++
	}
	if !c.nt {
		return
	}
	s.r.NonTrivial++
	h := fnv.New64a()
	_, _ = h.Write([]byte(c.desc.String()))
	if _, ok := s.seen[h.Sum64()]; ok {
		return
	}
	s.seen[h.Sum64()] = struct{}{}
	s.r.Distinct++
	// keep the first, and then at doubling distances
	if n := s.r.Distinct; n == 3 || n == 40 || n == 400 {
		d := c.desc.String()
		if len(d) > 700 {
			d = d[:700] + "..."
		}
		s.r.Samples = append(s.r.Samples, d)
	} else if n == 1 {
		d := c.desc.String()
		if len(d) > 300 {
			d = d[:300] + "..."
		}
		s.r.Samples = append(s.r.Samples, d)
	}
}

func (s *Stats) write(t *testing.T) {
	dir := os.Getenv("VERIF_OUT")
	if dir == "" {
		return
	}
	s.r.Failed = t.Failed()
	bt, err := json.MarshalIndent(&s.r, "", " ")
	if err != nil {
		panic(err)
	}
	name := strings.ReplaceAll(t.Name(), "/", "_") + ".json"
	if err := os.WriteFile(filepath.Join(dir, name), bt, 0o644); err != nil {
		panic(err)
	}
}

// Thorough says whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Seed of this run.
func Seed() uint64 {
	n, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

// N picks the number of cases for this tier.
func N(quick, thorough int) int {
	if v := os.Getenv("VERIF_CASES"); v != "" {
		n, _ := strconv.Atoi(v)
		if n > 0 {
			return n
		}
	}
	if Thorough() {
		return thorough
	}
	return quick
}

func rapidSeed(name string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", Seed(), name)
	v := h.Sum64()
	if v == 0 {
		v = 1
	}
	return v
}

// Check runs prop on n generated cases and reports. rule says how cases are made and when
// one is non-trivial.
func Check(t *testing.T, n int, rule string, prop func(t *rapid.T, c *Case)) {
	t.Helper()
	st := &Stats{r: Report{Test: t.Name(), Rule: rule, Classes: map[string]int{}}, seen: map[uint64]struct{}{}}
	defer st.write(t)
	if flag.Lookup("rapid.failfile").Value.String() == "" {
		must(flag.Set("rapid.seed", strconv.FormatUint(rapidSeed(t.Name()), 10)))
	}
	must(flag.Set("rapid.checks", strconv.Itoa(n)))
	must(flag.Set("rapid.shrinktime", "20s"))
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{s: st, classes: map[string]struct{}{}}
		defer c.end()
		prop(rt, c)
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Finding ends the test with a violation, unless the known findings list this one: then the runner
// prints it as a KNOWN-FINDING and the test goes on.
func Finding(t interface{ Fatalf(string, ...any) }, property, key, what string) {
	bt, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_DIR"), "known_findings.txt"))
	listed := false
	for _, l := range strings.Split(string(bt), "\n") {
		listed = listed || strings.HasPrefix(l, "known: property="+property+" key="+key+" ")
	}
	if err != nil || !listed {
		t.Fatalf("%s: %s", key, what)
		return
	}
	dir := os.Getenv("VERIF_OUT")
	line := fmt.Sprintf("property=%s %s: %s\n", property, key, what)
	if dir == "" {
		fmt.Print("KNOWN-FINDING: " + line)
		return
	}
	f, err := os.OpenFile(filepath.Join(dir, "known.txt"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	must(err)
	_, _ = f.WriteString(line)
	_ = f.Close()
}

// Keys returns the sorted keys of m.
func Keys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Sub is a case that is only described, for worlds run inside another case.
func Sub() *Case { return &Case{classes: map[string]struct{}{}} }

// Desc is the description so far.
func (c *Case) Desc() string { return c.desc.String() }
