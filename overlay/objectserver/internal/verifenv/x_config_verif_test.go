package verifenv

import (
	"common/proto/pb"
	"context"
	"fmt"
	"objectserver/config"
	"objectserver/internal/usecase/pool"
	"reflect"
	"sync"
	"testing"

	"google.golang.org/grpc"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
	"verifharness/vh"
)

// What an object server shows of its configuration is right and leaves out its credentials.
func TestVerif_A11_data(t *testing.T) {
	n := New(t.TempDir(), 1)
	defer n.Close()
	cc, err := grpc.Dial(n.Addr, grpc.WithInsecure())
	must(err)
	defer cc.Close()
	cli := pb.NewConfigServiceClient(cc)
	decode := func(bt []byte) (m map[string]any, err error) {
		err = yaml.Unmarshal(bt, &m)
		return
	}
	real := pool.Config
	defer func() { pool.Config = real }()
	vh.Check(t, vh.N(300, 10000), "an object server runs with generated values (texts that need quoting or are empty) in every field of its configuration; some clients, one after another or at once, ask for it; non-trivial: at least two credentials are set", func(t *rapid.T, c *vh.Case) {
		cfg := &config.Config{}
		pool.Config = cfg
		leaves := vh.Fill(t, cfg)
		k := 0
		for _, l := range leaves {
			c.Logf("%s: %q", l.Path, l.Text)
			if l.Secret && l.Text != "" {
				k++
			}
		}
		if k >= 2 {
			c.NonTrivial()
		}
		before := *cfg
		bt, err := yaml.Marshal(&before)
		must(err)
		running, err := decode(bt)
		must(err)
		ask := func() string {
			r, err := cli.GetConfig(context.Background(), &pb.EmptyReq{})
			if err != nil {
				return fmt.Sprintf("not shown: %v", err)
			}
			m, err := decode(r.YamlEncode)
			if err != nil {
				return fmt.Sprintf("no YAML: %v: %s", err, r.YamlEncode)
			}
			return vh.Masked(r.YamlEncode, m, running, leaves)
		}
		res := make([]string, rapid.IntRange(1, 4).Draw(t, "times"))
		if rapid.Bool().Draw(t, "at once") {
			c.Class("at once")
			var wg sync.WaitGroup
			for i := range res {
				i := i
				wg.Add(1)
				go func() { defer wg.Done(); res[i] = ask() }()
			}
			wg.Wait()
		} else {
			for i := range res {
				res[i] = ask()
			}
		}
		for _, s := range res {
			if s != "" {
				t.Fatal(s)
			}
		}
		if !reflect.DeepEqual(before, *cfg) {
			t.Fatalf("the configuration was changed by showing it:\n%+v\n%+v", before, *cfg)
		}
	})
}
