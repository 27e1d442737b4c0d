package vh

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// Leaf is a filled field of a configuration.
type Leaf struct {
	Path   string // the yaml keys to it
	Text   string // what was put there, if text
	Secret bool
}

// Secret says whether a field of that path is a credential.
func Secret(path string) bool {
	path = strings.ToLower(path)
	for _, s := range []string{"etcd.username", "etcd.password", "password.username", "password.password", "email.password"} {
		if strings.HasSuffix("."+path, "."+s) {
			return true
		}
	}
	return false
}

// Fill puts generated values into all fields of the configuration that conf points to that are
// shown in YAML. Every text is unlike every other.
func Fill(t *rapid.T, conf any) (r []Leaf) {
	n := 0
	text := func(path string) string {
		n++
		pre := rapid.SampledFrom([]string{"x", "a b", "é\"'", "*", "", "- q: [", "#\n", "%&?"}).Draw(t, path)
		return fmt.Sprintf("%sq%dz%06dw", pre, n, rapid.IntRange(0, 999999).Draw(t, path+" number"))
	}
	var walk func(path string, v reflect.Value)
	kept := false
	walk = func(path string, v reflect.Value) {
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Type().Field(i)
				// reading one replaces or refuses what is not set
				kept = f.Tag.Get("env-default") == "" && f.Tag.Get("env-required") == ""
				key := strings.Split(f.Tag.Get("yaml"), ",")[0]
				if !f.IsExported() || key == "-" {
					continue
				}
				if key == "" {
					key = strings.ToLower(f.Name)
				}
				walk(strings.TrimPrefix(path+"."+key, "."), v.Field(i))
			}
		case reflect.String:
			s := text(path)
			if kept && rapid.IntRange(0, 9).Draw(t, path+" empty") == 9 {
				s = ""
			}
			v.SetString(s)
			r = append(r, Leaf{path, s, Secret(path)})
		case reflect.Slice:
			k := rapid.IntRange(0, 3).Draw(t, path+" items")
			if !kept && k == 0 {
				k = 1
			}
			s := reflect.MakeSlice(v.Type(), k, k)
			for i := 0; i < k; i++ {
				walk(path, s.Index(i))
			}
			v.Set(s)
		case reflect.Bool:
			v.SetBool(rapid.Bool().Draw(t, path))
		case reflect.Float32, reflect.Float64:
			v.SetFloat(float64(rapid.IntRange(1, 7).Draw(t, path)) / 8)
		case reflect.Int64:
			if v.Type() == reflect.TypeOf(time.Second) {
				v.SetInt(int64(time.Millisecond) * int64(rapid.IntRange(1, 1<<30).Draw(t, path)))
				return
			}
			fallthrough
		case reflect.Int, reflect.Int32, reflect.Int16, reflect.Int8:
			v.SetInt(int64(rapid.IntRange(1, 100).Draw(t, path)))
		case reflect.Uint64, reflect.Uint, reflect.Uint32:
			n := rapid.Uint64Range(1, 900).Draw(t, path)
			if v.Kind() == reflect.Uint64 {
				n = n<<rapid.SampledFrom([]int{10, 0, 20, 30, 9, 19}).Draw(t, path+" unit") + rapid.SampledFrom([]uint64{0, 1, 512, 1024}).Draw(t, path+" more")
			}
			v.SetUint(n)
		default:
			panic("no generator for " + path + " of " + v.Type().String())
		}
	}
	walk("", reflect.ValueOf(conf).Elem())
	return r
}

// Flat lists the leaves of a decoded YAML document.
func Flat(doc any) map[string]any {
	r := map[string]any{}
	var walk func(path string, v any)
	walk = func(path string, v any) {
		if m, ok := v.(map[string]any); ok {
			for k, e := range m {
				walk(strings.TrimPrefix(path+"."+k, "."), e)
			}
			return
		}
		r[path] = v
	}
	walk("", doc)
	return r
}

// Masked compares a shown configuration with the one that is running, whose texts are given:
// the same but for the credentials, which are nowhere in it.
func Masked(raw []byte, shown, running any, leaves []Leaf) string {
	for _, l := range leaves {
		if l.Secret && l.Text != "" && strings.Contains(string(raw), l.Text[strings.LastIndex(l.Text, "q"):]) {
			return fmt.Sprintf("%s is shown", l.Path)
		}
	}
	a, b := Flat(shown), Flat(running)
	for k := range a {
		if _, ok := b[k]; !ok {
			return fmt.Sprintf("%s is shown, which does not exist", k)
		}
	}
	for k, v := range b {
		if w, ok := a[k]; !Secret(k) && (!ok || !reflect.DeepEqual(v, w)) {
			return fmt.Sprintf("%s is shown as %#v, it is %#v", k, w, v)
		}
	}
	return ""
}
