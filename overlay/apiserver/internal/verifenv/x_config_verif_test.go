package verifenv

import (
	"apiserver/internal/usecase/pool"
	"fmt"
	"reflect"
	"sync"
	"testing"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
	"verifharness/vh"
)

// decode reads a YAML document.
func decode(bt []byte) (m map[string]any, err error) {
	err = yaml.Unmarshal(bt, &m)
	return
}

// What an API server shows of its configuration is right and leaves out its credentials.
func TestVerif_A11_api(t *testing.T) {
	w := NewWeb(NewAPI(1))
	vh.Check(t, vh.N(300, 10000), "an API server runs with generated values (texts that need quoting or are empty) in every field of its configuration, except where requests are answered from; some clients, one after another or at once, ask for it; non-trivial: at least two credentials are set", func(t *rapid.T, c *vh.Case) {
		was := *pool.Config
		defer func() { *pool.Config = was }()
		leaves := vh.Fill(t, pool.Config)
		n := 0
		for _, l := range leaves {
			c.Logf("%s: %q", l.Path, l.Text)
			if l.Secret && l.Text != "" {
				n++
			}
		}
		if n >= 2 {
			c.NonTrivial()
		}
		before := *pool.Config
		bt, err := yaml.Marshal(&before)
		must(err)
		running, err := decode(bt)
		must(err)
		ask := func() string {
			a, err := w.Call("GET", "/config", nil, nil, nil, 0)
			if err != nil || a.Status != 200 {
				return fmt.Sprintf("not shown: %v %s", err, a)
			}
			shown, err := decode(a.Body)
			if err != nil {
				return fmt.Sprintf("no YAML: %v: %s", err, a)
			}
			return vh.Masked(a.Body, shown, running, leaves)
		}
		times := rapid.IntRange(1, 4).Draw(t, "times")
		if rapid.Bool().Draw(t, "at once") {
			c.Class("at once")
			var wg sync.WaitGroup
			res := make([]string, times)
			for i := range res {
				i := i
				wg.Add(1)
				go func() { defer wg.Done(); res[i] = ask() }()
			}
			wg.Wait()
			for _, s := range res {
				if s != "" {
					t.Fatal(s)
				}
			}
		} else {
			for i := 0; i < times; i++ {
				if s := ask(); s != "" {
					t.Fatal(s)
				}
			}
		}
		if !reflect.DeepEqual(before, *pool.Config) {
			t.Fatalf("the configuration was changed by showing it:\n%+v\n%+v", before, *pool.Config)
		}
	})
}
