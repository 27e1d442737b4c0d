package verifenv_test

import (
	"common/logs"
	"common/proto/pb"
	"context"
	"fmt"
	"io"
	"metaserver/config"
	"metaserver/internal/usecase/pool"
	"metaserver/internal/usecase/raftimpl"
	. "metaserver/internal/verifenv"
	"os"
	"os/signal"
	"path/filepath"
	"reflect"
	"sync"
	"syscall"
	"testing"

	"google.golang.org/grpc"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
	"verifharness/vh"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// decode reads a YAML document.
func decode(bt []byte) (m map[string]any, err error) {
	err = yaml.Unmarshal(bt, &m)
	return
}

// shown is what YAML shows of a configuration.
func shown(cfg *config.Config) map[string]any {
	bt, err := yaml.Marshal(cfg)
	must(err)
	m, err := decode(bt)
	must(err)
	return m
}

// What a metadata server shows of its configuration is right and leaves out its credentials.
func TestVerif_A11_meta(t *testing.T) {
	dir := t.TempDir()
	l, port := Listen()
	cfg := ServerConfig(dir, "s1", port, []string{"0-16384"})
	rw := raftimpl.NewDisabledRaft()
	e := New(NewCache(), rw)
	defer e.Close()
	UsePool(cfg, nil, nil, rw)
	f := e.Serve(l, cfg, rw)
	defer f.Close()
	cc, err := grpc.Dial(f.Addr, grpc.WithInsecure())
	must(err)
	defer cc.Close()
	cli := pb.NewConfigServiceClient(cc)
	vh.Check(t, vh.N(300, 10000), "a metadata server runs with generated values (texts that need quoting or are empty) in every field of its configuration; some clients, one after another or at once, ask for it; non-trivial: at least two credentials are set", func(t *rapid.T, c *vh.Case) {
		cfg := &config.Config{}
		pool.Config = cfg
		leaves := vh.Fill(t, cfg)
		n := 0
		for _, l := range leaves {
			c.Logf("%s: %q", l.Path, l.Text)
			if l.Secret && l.Text != "" {
				n++
			}
		}
		if n >= 2 {
			c.NonTrivial()
		}
		before := *cfg
		running := shown(&before)
		ask := func() string {
			r, err := cli.GetConfig(context.Background(), &pb.EmptyReq{})
			if err != nil {
				return fmt.Sprintf("not shown: %v", err)
			}
			m, err := decode(r.YamlEncode)
			if err != nil {
				return fmt.Sprintf("no YAML: %v: %s", err, r.YamlEncode)
			}
			return vh.Masked(r.YamlEncode, m, running, leaves)
		}
		res := make([]string, rapid.IntRange(1, 4).Draw(t, "times"))
		if rapid.Bool().Draw(t, "at once") {
			c.Class("at once")
			var wg sync.WaitGroup
			for i := range res {
				i := i
				wg.Add(1)
				go func() { defer wg.Done(); res[i] = ask() }()
			}
			wg.Wait()
		} else {
			for i := range res {
				res[i] = ask()
			}
		}
		for _, s := range res {
			if s != "" {
				t.Fatal(s)
			}
		}
		if !reflect.DeepEqual(before, *cfg) {
			t.Fatalf("the configuration was changed by showing it:\n%+v\n%+v", before, *cfg)
		}
	})
}

// same compares two configurations by what is written of them.
func same(a, b map[string]any) string {
	x, y := vh.Flat(a), vh.Flat(b)
	for k, v := range x {
		if w, ok := y[k]; !ok || !reflect.DeepEqual(v, w) {
			return fmt.Sprintf("%s is %#v, it was %#v", k, w, v)
		}
	}
	for k := range y {
		if _, ok := x[k]; !ok {
			return k + " is new"
		}
	}
	return ""
}

// limited lets no file grow beyond max bytes while fn runs.
func limited(max uint64, fn func()) {
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: max, Max: old.Max}))
	defer func() { must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
	fn()
}

// A metadata server reads back the configuration that it saved last.
func TestVerif_M10_saved(t *testing.T) {
	logs.SetOutput(io.Discard)
	// a write beyond the file size limit fails, it does not kill
	signal.Ignore(syscall.SIGXFSZ)
	for _, s := range []string{"PORT", "DATA_DIR"} {
		must(os.Unsetenv(s))
	}
	top := t.TempDir()
	n := 0
	vh.Check(t, vh.N(400, 10000), "a metadata server starts from a file, and again and again its configuration changes in generated fields (texts that need quoting, sizes of any number of bytes, empty and long lists of slots and members) and is saved, by several at once or while the disk is full, and read by the next start; non-trivial: saved by several at once, by a full disk or at least twice", func(t *rapid.T, c *vh.Case) {
		n++
		dir := filepath.Join(top, fmt.Sprint(n))
		must(os.MkdirAll(dir, 0o700))
		defer os.RemoveAll(dir)
		cfg := ServerConfig(dir, "s1", "1", []string{"0-100"})
		path := filepath.Join(dir, "s1.yaml")
		if rapid.IntRange(0, 4).Draw(t, "linked") == 4 {
			c.Class("symbolic link")
			must(os.MkdirAll(filepath.Join(dir, "real"), 0o700))
			must(os.Rename(path, filepath.Join(dir, "real", "f")))
			must(os.Symlink(filepath.Join("real", "f"), path))
			cfg = config.ReadConfigFrom(path)
		}
		sizes := map[string]uint64{"cache": uint64(cfg.Cache.MaxSize)}
		saved := shown(cfg)
		steps := rapid.IntRange(1, 5).Draw(t, "steps")
		if steps > 1 {
			c.NonTrivial()
		}
		for i := 0; i < steps; i++ {
			switch op := rapid.SampledFrom([]string{"slots", "all", "members", "same"}).Draw(t, "change"); op {
			case "slots":
				cfg.HashSlot.Slots = nil
				for k := rapid.SampledFrom([]int{1, 0, 2, 40, 400}).Draw(t, "slots"); k > 0; k-- {
					cfg.HashSlot.Slots = append(cfg.HashSlot.Slots, fmt.Sprintf("%d-%d", k*40, k*40+rapid.IntRange(1, 40).Draw(t, "length")))
				}
				if cfg.HashSlot.Slots == nil && rapid.Bool().Draw(t, "empty, not nil") {
					cfg.HashSlot.Slots = []string{}
				}
				c.Class(fmt.Sprintf("%d slots", len(cfg.HashSlot.Slots)))
			case "all":
				vh.Fill(t, cfg)
				if rapid.Bool().Draw(t, "in a group") {
					cfg.Cluster.Enable = true
				}
			case "members":
				cfg.Cluster.Nodes = nil
				for k := rapid.IntRange(0, 5).Draw(t, "members"); k > 0; k-- {
					cfg.Cluster.Nodes = append(cfg.Cluster.Nodes, fmt.Sprintf("m%d,10.0.0.%d:80", k, k))
				}
			}
			if cfg.Registry.ServerID == "" {
				cfg.Registry.ServerID = "s1" // as it is once a server has started
			}
			if cfg.DataDir == "" {
				cfg.DataDir = dir
			}
			mode := rapid.SampledFrom([]os.FileMode{0o600, 0o644, 0o700}).Draw(t, "mode")
			must(os.Chmod(path, mode))
			want := shown(cfg)
			failed := false
			switch how := rapid.SampledFrom([]string{"once", "at once", "full", "once"}).Draw(t, "saved"); how {
			case "once":
				must(cfg.Persist())
			case "at once":
				c.NonTrivial()
				c.Class(how)
				var wg sync.WaitGroup
				for k := rapid.IntRange(2, 5).Draw(t, "by"); k > 0; k-- {
					wg.Add(1)
					go func() { defer wg.Done(); must(cfg.Persist()) }()
				}
				wg.Wait()
			case "full":
				c.NonTrivial()
				max := rapid.SampledFrom([]uint64{0, 10, 100, 400, 600}).Draw(t, "space")
				limited(max, func() { failed = cfg.Persist() != nil })
				if failed {
					c.Class("disk full")
				}
			}
			if !failed {
				saved = want
				sizes["cache"] = uint64(cfg.Cache.MaxSize)
			}
			got := func() (r *config.Config) {
				defer func() {
					if e := recover(); e != nil {
						bt, _ := os.ReadFile(path)
						t.Fatalf("what was saved cannot be read: %v:\n%s", e, bt)
					}
				}()
				return config.ReadConfigFrom(path)
			}()
			c.Logf("step %d (failed: %v): %v", i, failed, saved)
			if s := same(saved, shown(got)); s != "" {
				t.Fatalf("after it was saved (failed: %v) and read again, %s", failed, s)
			}
			if uint64(got.Cache.MaxSize) != sizes["cache"] {
				t.Fatalf("after it was saved and read again, the size of the cache is %d, it was %d", got.Cache.MaxSize, sizes["cache"])
			}
			id := got.Registry.SID()
			if got.Cluster.Enable {
				id = got.Cluster.GroupID
			}
			if got.HashSlot.StoreID != id {
				t.Fatalf("slots are kept for %q, it is %q", got.HashSlot.StoreID, id)
			}
			if st, err := os.Stat(path); err != nil || st.Mode() != mode {
				t.Fatalf("the file has mode %v, it had %v", st.Mode(), mode)
			}
			if es, _ := os.ReadDir(dir); len(es) > 2 {
				t.Fatalf("files are left: %v", es)
			}
			if rapid.Bool().Draw(t, "starts again") {
				cfg = got
			}
		}
	})
}
