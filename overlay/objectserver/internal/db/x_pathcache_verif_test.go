package db_test

import (
	"errors"
	"fmt"
	"objectserver/internal/db"
	"os"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verifharness/vh"
)

// paths is the model: the paths of each name, the most recent one last.
type paths map[string][]string

func (m paths) put(name, p string) { m.remove(name, p); m[name] = append(m[name], p) }
func (m paths) remove(name, p string) {
	var left []string
	for _, x := range m[name] {
		if x != p {
			left = append(left, x)
		}
	}
	m[name] = left
}

// genPath draws a path, mostly one that looks like others: a part of them, or with odd characters.
func genPath(t *rapid.T, name string) string {
	mp := rapid.SampledFrom([]string{"", "/mnt", "/mnt/a", "/a", "/mnt/a,b", "/mnt/a%2Cb", "/b", "/mnt/a%", "/mnt/a%252Cb", "/a/mnt", "/データ", "/mnt/a b", ",", "%2C", "/%25"}).Draw(t, "mount")
	return mp + "/objects/" + rapid.SampledFrom([]string{name, name, name + "x", "x", name + ","}).Draw(t, "file")
}

func checkPaths(pc *db.PathCache, m paths, name string) string {
	got, err := pc.Get(name)
	last, err2 := pc.GetLast(name)
	want := m[name]
	if len(want) == 0 {
		if !errors.Is(err, os.ErrNotExist) || !errors.Is(err2, os.ErrNotExist) {
			return fmt.Sprintf("%q has no path: Get %q, %v; GetLast %q, %v", name, got, err, last, err2)
		}
		return ""
	}
	if err != nil || err2 != nil {
		return fmt.Sprintf("%q has paths %q: Get: %v, GetLast: %v", name, want, err, err2)
	}
	a, b := append([]string{}, got...), append([]string{}, want...)
	sort.Strings(a)
	sort.Strings(b)
	if strings.Join(a, "\n") != strings.Join(b, "\n") {
		return fmt.Sprintf("%q: paths %q, want %q", name, got, want)
	}
	if last != want[len(want)-1] {
		return fmt.Sprintf("%q: last path %q, want %q of %q", name, last, want[len(want)-1], want)
	}
	return ""
}

// TestVerif_O04_paths records and removes paths in histories, with reopening of the database.
func TestVerif_O04_paths(t *testing.T) {
	dir := t.TempDir()
	pc, err := db.NewPathCache(dir)
	if err != nil {
		t.Fatal(err)
	}
	defer func() { _ = pc.Close() }()
	run := 0
	vh.Check(t, vh.N(1500, 30000), "a name had two paths and lost one of them", func(t *rapid.T, c *vh.Case) {
		run++
		names := []string{fmt.Sprintf("h%d.0", run), fmt.Sprintf("h%d.1", run), fmt.Sprintf("h%d.10", run)}
		m := paths{}
		reopens := 0
		for i := rapid.IntRange(1, 25).Draw(t, "ops"); i > 0; i-- {
			name := rapid.SampledFrom(names).Draw(t, "name")
			op := rapid.IntRange(0, 19).Draw(t, "op")
			switch {
			case op < 10:
				p := genPath(t, name)
				c.Logf("put %q %q", name, p)
				if err := pc.Put(name, p); err != nil {
					t.Fatalf("Put(%q,%q): %v", name, p, err)
				}
				m.put(name, p)
			case op < 17:
				p := genPath(t, name)
				if len(m[name]) > 0 && rapid.IntRange(0, 3).Draw(t, "own") > 0 {
					p = rapid.SampledFrom(m[name]).Draw(t, "p")
					if len(m[name]) > 1 {
						c.NonTrivial()
					}
				}
				c.Logf("remove %q %q", name, p)
				if err := pc.Remove(name, p); err != nil {
					t.Fatalf("Remove(%q,%q): %v", name, p, err)
				}
				m.remove(name, p)
			case op < 18:
				c.Logf("remove all %q", name)
				if err := pc.RemoveAll(name); err != nil {
					t.Fatalf("RemoveAll(%q): %v", name, err)
				}
				delete(m, name)
			case op < 19 && reopens == 0 && run%20 == 0:
				reopens++
				c.Class("reopened")
				if err := pc.Close(); err != nil {
					t.Fatalf("close: %v", err)
				}
				if pc, err = db.NewPathCache(dir); err != nil {
					t.Fatalf("reopen: %v", err)
				}
			}
			for _, n := range names {
				if d := checkPaths(pc, m, n); d != "" {
					t.Fatalf("%s", d)
				}
			}
		}
		// all paths of all names, each as often as it is recorded
		want, got := map[string]int{}, map[string]int{}
		for _, n := range names {
			for _, p := range m[n] {
				want[p]++
			}
		}
		if err := pc.IteratorAll(func(p string) error { got[p]++; return nil }); err != nil {
			t.Fatalf("iterating: %v", err)
		}
		for p := range got {
			if got[p] != want[p] {
				t.Fatalf("iterating: %q %d times, recorded %d times", p, got[p], want[p])
			}
		}
		for p := range want {
			if got[p] == 0 {
				t.Fatalf("iterating misses %q", p)
			}
		}
		for _, n := range names {
			if err := pc.RemoveAll(n); err != nil {
				t.Fatalf("RemoveAll: %v", err)
			}
		}
	})
}
