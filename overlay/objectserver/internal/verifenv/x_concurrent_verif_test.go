package verifenv

import (
	"bytes"
	"fmt"
	"objectserver/internal/db"
	"objectserver/internal/usecase/pool"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"pgregory.net/rapid"
	"verifharness/vh"
)

type call struct {
	kind string // put commit get head delete
	name string
	comp bool
	val  int // which content
	off  int
}

type answer struct {
	val    int // 0 absent
	failed string
}

func (c call) String() string { return fmt.Sprintf("%s %s v%d", c.kind, c.name, c.val) }

// absent is 0, else which content is stored
var register = porcupine.Model{
	Init: func() any { return 0 },
	Step: func(state, in, out any) (bool, any) {
		v, c, a := state.(int), in.(call), out.(answer)
		switch c.kind {
		case "put", "slow put", "commit":
			if v == 0 {
				v = c.val
			}
			return true, v
		case "delete":
			return true, 0
		case "head":
			return (v != 0) == (a.val != 0), v
		}
		return v == a.val, v
	},
	Partition: func(ops []porcupine.Operation) [][]porcupine.Operation {
		by := map[string][]porcupine.Operation{}
		for _, o := range ops {
			by[o.Input.(call).name] = append(by[o.Input.(call).name], o)
		}
		var r [][]porcupine.Operation
		for _, k := range vh.Keys(by) {
			r = append(r, by[k])
		}
		return r
	},
	DescribeOperation: func(in, out any) string { return fmt.Sprintf("%s -> %d", in, out.(answer).val) },
}

// concurrent runs clients at once and says what is wrong with what they saw.
func concurrent(n *Node, plans [][]call, contents [][]byte) string {
	size := len(contents[0])
	var clock atomic.Int64
	var mu sync.Mutex
	var ops []porcupine.Operation
	var bad []string
	var wg sync.WaitGroup
	start := make(chan struct{})
	// at last everything is read, twice: what is cached must be what is stored
	names, comps := map[string]bool{}, map[string]bool{}
	for _, plan := range plans {
		for _, c := range plan {
			names[c.name], comps[c.name] = true, c.comp
		}
	}
	var last []call
	for _, k := range vh.Keys(names) {
		last = append(last, call{kind: "get", name: k, comp: comps[k]}, call{kind: "get", name: k, comp: comps[k]}, call{kind: "get", name: k, comp: comps[k], off: 1}, call{kind: "head", name: k})
	}
	end := make(chan struct{})
	plans = append(append([][]call{}, plans...), last)
	var clients sync.WaitGroup
	clients.Add(len(plans) - 1)
	for cl, plan := range plans {
		cl, plan := cl, plan
		wg.Add(1)
		go func() {
			defer wg.Done()
			if cl == len(plans)-1 {
				<-end
			} else {
				defer clients.Done()
				<-start
			}
			for _, c := range plan {
				id := ""
				if c.kind == "commit" {
					r := n.Do("POST", "/temp/"+c.name, nil, "Size", strconv.Itoa(size))
					id = string(r.Body)
					h := size / 2
					if !r.OK() || !n.Do("PATCH", "/temp/"+id, contents[c.val-1][:h]).OK() || !n.Do("PATCH", "/temp/"+id, contents[c.val-1][h:]).OK() {
						mu.Lock()
						bad = append(bad, fmt.Sprintf("%s: the upload failed", c))
						mu.Unlock()
						continue
					}
				}
				from := clock.Add(1)
				a := answer{}
				switch c.kind {
				case "slow put":
					b := contents[c.val-1]
					if r := n.Split("PUT", "/objects/"+c.name+comp(c.comp), int64(size), b[:size/2], func() { time.Sleep(time.Duration(size%5+1) * time.Millisecond) }, b[size/2:]); !r.OK() {
						a.failed = r.String()
					}
				case "put":
					if r := n.Do("PUT", "/objects/"+c.name+comp(c.comp), contents[c.val-1]); !r.OK() {
						a.failed = r.String()
					}
				case "commit":
					if r := n.Do("PUT", "/temp/"+id+comp(c.comp), nil); !r.OK() {
						a.failed = r.String()
					}
				case "delete":
					if r := n.Do("DELETE", "/objects/"+c.name, nil); !r.OK() {
						a.failed = r.String()
					}
				case "head":
					r := n.Do("HEAD", "/objects/"+c.name, nil)
					if r.Status == 200 {
						a.val = 1
					} else if r.Status != 404 {
						a.failed = r.String()
					}
				case "get", "slow get":
					slow := "0"
					if c.kind == "slow get" {
						slow = strconv.Itoa(size%5 + 12)
					}
					r := n.Do("GET", "/objects/"+c.name+comp(c.comp), nil, "Size", strconv.Itoa(size-c.off), "Range", fmt.Sprintf("bytes=%d-", c.off), SlowReader, slow)
					if r.Status == 404 {
						break
					}
					for v, b := range contents {
						if r.OK() && bytes.Equal(b[c.off:], r.Body) {
							a.val = v + 1
						}
					}
					if a.val == 0 {
						a.failed = r.String()
					}
				}
				to := clock.Add(1)
				mu.Lock()
				if a.failed != "" {
					bad = append(bad, fmt.Sprintf("%s: %s", c, a.failed))
				}
				ops = append(ops, porcupine.Operation{ClientId: cl, Input: c, Call: from, Output: a, Return: to})
				mu.Unlock()
			}
		}()
	}
	close(start)
	clients.Wait()
	close(end)
	wg.Wait()
	if len(bad) > 0 {
		return strings.Join(bad, "\n")
	}
	if porcupine.CheckOperationsTimeout(register, ops, 20*time.Second) == porcupine.Illegal {
		var b strings.Builder
		for _, o := range ops {
			fmt.Fprintf(&b, "\n client %d [%d,%d] %s", o.ClientId, o.Call, o.Return, register.DescribeOperation(o.Input, o.Output))
		}
		return "no order of the operations explains the answers:" + b.String()
	}
	return ""
}

func genPlans(t *rapid.T, c *vh.Case) (plans [][]call, contents [][]byte, hot bool) {
	caseNo++
	size := rapid.SampledFrom([]int{5000, 4096, 100, 20000, 70000}).Draw(t, "size")
	names := []string{fmt.Sprintf("c%d.0", caseNo), fmt.Sprintf("c%d.1", caseNo)}[:rapid.IntRange(1, 2).Draw(t, "names")]
	comps := map[string]bool{}
	for _, n := range names {
		comps[n] = rapid.Bool().Draw(t, "compress")
	}
	seen := map[string]int{}
	for cl := rapid.IntRange(2, 5).Draw(t, "clients"); cl > 0; cl-- {
		var plan []call
		for k := rapid.IntRange(1, 6).Draw(t, "calls"); k > 0; k-- {
			x := call{kind: rapid.SampledFrom([]string{"put", "get", "delete", "commit", "slow put", "slow get", "get", "head"}).Draw(t, "kind"), name: rapid.SampledFrom(names).Draw(t, "name")}
			x.comp = comps[x.name]
			switch x.kind {
			case "put", "slow put", "commit":
				contents = append(contents, Content(int64(caseNo*1000+len(contents)), size))
				x.val = len(contents)
				seen["store"]++
			case "get", "slow get":
				x.off = rapid.SampledFrom([]int{0, 0, 1, size / 3}).Draw(t, "off")
				seen["get"]++
			case "delete":
				seen["delete"]++
			}
			plan = append(plan, x)
		}
		plans = append(plans, plan)
		c.Logf("%v", plan)
	}
	if contents == nil {
		contents = [][]byte{Content(1, size)}
	}
	return plans, contents, seen["store"] > 1 && seen["get"] > 0 && seen["delete"] > 0
}

func checkQuiet(t *rapid.T, n *Node, c *vh.Case) {
	w := &world{n: n, t: t, c: c, objs: map[string]*object{}, orphans: map[string]bool{}}
	objects, temps := n.Files()
	seen := map[string]bool{}
	for _, f := range objects {
		if seen[f.Name] {
			t.Fatalf("%s is stored twice\n%s", f.Name, c.Desc())
		}
		seen[f.Name] = true
	}
	for _, f := range temps {
		w.noTemp(f.Name)
	}
	if got, want := pool.ObjectCap.Capacity(), w.stored(); got != want {
		t.Fatalf("the used capacity is %d, objects of %d bytes are stored\n%s", got, want, c.Desc())
	}
}

const concurrentRule = "2-5 clients store (directly and by upload), read from an offset, look for and delete 1-2 objects at once; the answers must be those of some order of the operations (porcupine, each read content " +
	"identified, also by reads at the end), then one file per object, no temporary file, and the capacity of the files; non-trivial: several stores, a read and a delete"

func TestVerif_O01_clients(t *testing.T) {
	n := node(t, 2)
	n.Lazy = true
	n.Reset()
	vh.Check(t, vh.N(400, 15000), concurrentRule, func(t *rapid.T, c *vh.Case) {
		plans, contents, hot := genPlans(t, c)
		if hot {
			c.NonTrivial()
		}
		if bad := concurrent(n, plans, contents); bad != "" {
			t.Fatalf("%s\n%s", bad, c.Desc())
		}
		checkQuiet(t, n, c)
		n.Reset()
	})
}

func TestVerif_O05_clients_race(t *testing.T) {
	n := node(t, 2)
	vh.Check(t, vh.N(120, 4000), concurrentRule+"; built with the race detector", func(t *rapid.T, c *vh.Case) {
		plans, contents, hot := genPlans(t, c)
		if hot {
			c.NonTrivial()
		}
		if bad := concurrent(n, plans, contents); bad != "" {
			t.Fatalf("%s\n%s", bad, c.Desc())
		}
		checkQuiet(t, n, c)
		n.Reset()
	})
}

// parts of one upload sent at once are appended one after another, whole
func TestVerif_O02_clients(t *testing.T) {
	n := node(t, 2)
	n.Lazy = true
	n.Reset()
	vh.Check(t, vh.N(250, 8000), "2-5 clients append 1-3 parts each to one upload at once, some ask for its size or commit it meanwhile; the object is the concatenation of exactly the accepted parts in some order that keeps the order of "+
		"each client's, no size is reported that is no sum of parts, and a commit in between takes what had been appended; non-trivial: 3 and more parts", func(t *rapid.T, c *vh.Case) {
		caseNo++
		name := fmt.Sprintf("p%d.0", caseNo)
		compress := rapid.Bool().Draw(t, "compress")
		size := rapid.SampledFrom([]int{700, 4096, 5000, 9000, 1}).Draw(t, "size")
		n.Pick.Set(rapid.IntRange(0, 1).Draw(t, "disk"))
		r := n.Do("POST", "/temp/"+name, nil, "Size", "1000000")
		if !r.OK() {
			t.Fatalf("open: %s", r)
		}
		id := string(r.Body)
		clients := rapid.IntRange(2, 5).Draw(t, "clients")
		early := rapid.IntRange(0, 3).Draw(t, "commit early") == 0
		parts := make([][]byte, 0, 15)
		plan := make([][]int, clients)
		for i := range plan {
			for k := rapid.IntRange(1, 3).Draw(t, "parts"); k > 0; k-- {
				plan[i] = append(plan[i], len(parts))
				// each part tells its number in every byte
				parts = append(parts, bytes.Repeat([]byte{byte(1 + len(parts))}, size))
			}
		}
		c.Logf("%d clients, %d parts of %d, compress %v, early %v", clients, len(parts), size, compress, early)
		if len(parts) >= 3 {
			c.NonTrivial()
		}
		ok := make([]bool, len(parts))
		resp := make([]string, len(parts))
		var wg sync.WaitGroup
		var mu sync.Mutex
		var bad []string
		committed := false
		for i := range plan {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, p := range plan[i] {
					r := n.Do("PATCH", "/temp/"+id, parts[p])
					ok[p], resp[p] = r.OK(), r.String()
					if h := n.Do("HEAD", "/temp/"+id, nil); h.Status == 200 {
						if sz, err := strconv.Atoi(h.Header.Get("Size")); err != nil || sz%size != 0 || sz > len(parts)*size {
							mu.Lock()
							bad = append(bad, fmt.Sprintf("reports the size %q, parts have %d", h.Header.Get("Size"), size))
							mu.Unlock()
						}
					}
				}
			}()
		}
		if early {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(caseNo%5) * 300 * time.Microsecond)
				// an upload without data cannot be committed
				committed = n.Do("PUT", "/temp/"+id+comp(compress), nil).OK()
			}()
		}
		wg.Wait()
		early = committed
		if len(bad) > 0 {
			t.Fatalf("%s\n%s", strings.Join(bad, "\n"), c.Desc())
		}
		accepted := 0
		for i := range parts {
			if ok[i] {
				accepted++
			} else if !early {
				t.Fatalf("part %d refused: %s\n%s", i, resp[i], c.Desc())
			}
		}
		if !early {
			if h := n.Do("HEAD", "/temp/"+id, nil); h.Header.Get("Size") != strconv.Itoa(accepted*size) {
				t.Fatalf("reports the size %s, %d parts of %d were appended\n%s", h.Header.Get("Size"), accepted, size, c.Desc())
			}
			if r := n.Do("PUT", "/temp/"+id+comp(compress), nil); !r.OK() {
				t.Fatalf("commit: %s\n%s", r, c.Desc())
			}
		}
		if accepted == 0 {
			n.Reset()
			return
		}
		got := n.Do("GET", "/objects/"+name+comp(compress), nil, "Size", strconv.Itoa(accepted*size))
		if !got.OK() || len(got.Body) < accepted*size {
			t.Fatalf("%d bytes of %d: %s\n%s", len(got.Body), accepted*size, got, c.Desc())
		}
		var order []int
		left := append([]bool{}, ok...)
		next := map[int]int{}
		owner := map[int]int{}
		for i := range plan {
			for _, p := range plan[i] {
				owner[p] = i
			}
		}
		for k := 0; k < accepted; k++ {
			b := got.Body[k*size : (k+1)*size]
			p := int(b[0]) - 1
			if p < 0 || p >= len(parts) || !left[p] || !bytes.Equal(b, parts[p]) {
				t.Fatalf("after parts %v come the bytes of part %d (accepted %v)\n%s", order, p, ok, c.Desc())
			}
			left[p] = false
			if p < next[owner[p]] {
				t.Fatalf("part %d comes too late, after %v\n%s", p, order, c.Desc())
			}
			next[owner[p]] = p + 1
			order = append(order, p)
		}
		n.Reset()
	})
}

// TestVerif_O05_counter lets many goroutines report what they store and remove.
func TestVerif_O05_counter(t *testing.T) {
	vh.Check(t, vh.N(60, 1500), "two or more goroutines report at once", func(t *rapid.T, c *vh.Case) {
		counter := db.NewObjectCapacity()
		n := rapid.IntRange(1, 8).Draw(t, "goroutines")
		if n > 1 {
			c.NonTrivial()
		}
		plans := make([][]int64, n)
		var total int64
		for i := range plans {
			var has int64
			for j, m := 0, rapid.IntRange(1, 20).Draw(t, "steps"); j < m; j++ {
				d := int64(rapid.IntRange(-100, 100).Draw(t, "step"))
				if has+d < 0 {
					d = -has // no more is removed than was stored
				}
				has += d
				plans[i] = append(plans[i], d)
			}
			// so that the plan can be repeated
			plans[i] = append(plans[i], -has)
			total += int64(i + 1)
		}
		c.Logf("plans %v", plans)
		rounds := rapid.IntRange(1, 300).Draw(t, "rounds")
		var wg, start sync.WaitGroup
		start.Add(1)
		for i := range plans {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				start.Wait()
				for r := 0; r < rounds; r++ {
					for _, d := range plans[i] {
						if d >= 0 {
							counter.AddCap(d)
						} else {
							counter.SubCap(-d)
						}
					}
				}
				counter.AddCap(int64(i + 1))
			}()
		}
		start.Done()
		wg.Wait()
		if got := counter.Capacity(); got != total {
			t.Fatalf("%d goroutines stored %d in all, the capacity says %d (%d rounds of %v)", n, total, got, rounds, plans)
		}
	})
}
