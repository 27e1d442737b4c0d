package verifenv

import (
	"bytes"
	"common/proto/msg"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"io"
	"mime/multipart"
	"net/http"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verifharness/vh"
)

func genName(t *rapid.T, label string, slash bool) string {
	var n string
	switch rapid.IntRange(0, 3).Draw(t, label+" kind") {
	case 0:
		n = rapid.StringMatching(`[a-z%?#&+=;:,. @!$'()*~"\\<>^|{}\[\]é日-]{1,12}`).Draw(t, label)
	case 1:
		n = rapid.SampledFrom([]string{"a%2Fb", "a?version=9", "x#y", "..a", "100%", "a+b", " a ", "日本 語", "%41", "a&bucket=z", "%", "a;b", "versions"}).Draw(t, label)
	case 2:
		n = rapid.StringN(1, 10, 30).Draw(t, label)
	default:
		n = "plain" + strconv.Itoa(rapid.IntRange(0, 9).Draw(t, label))
	}
	// not of any request: what no path or header can carry
	n = strings.Map(func(r rune) rune {
		if r < ' ' || r == 0x7f || r == 0xfffd || !slash && r == '/' {
			return 'x'
		}
		return r
	}, strings.ToValidUTF8(n, "x"))
	if n == "." || n == ".." {
		n = "dots"
	}
	return n
}

// header values are trimmed on the wire
func genBucket(t *rapid.T) string {
	if b := strings.TrimSpace(genName(t, "bucket", true)); b != "" {
		return b
	}
	return "b"
}

// Requests through the admin server reach an API server as what they were, and its answers come back.
func TestVerif_D02_relay(t *testing.T) {
	vh.Check(t, vh.N(500, 15000), "an object or bucket name that needs escaping, or a failing API server", func(t *rapid.T, c *vh.Case) {
		a := New()
		defer a.Close()
		api := NewAPI()
		defer api.Close()
		a.Register(APIName, "api", "", api.Addr())
		a.Settle()
		for n := rapid.IntRange(1, 5).Draw(t, "requests"); n > 0; n-- {
			name, bucket := genName(t, "name", false), genBucket(t)
			if url.PathEscape(name) != name || url.QueryEscape(bucket) != bucket {
				c.NonTrivial()
			}
			token := "Basic " + base64.StdEncoding.EncodeToString([]byte(genName(t, "user", false)))
			h := map[string]string{"Authorization": token}
			content := bytes.Repeat([]byte(rapid.StringN(1, 20, 40).Draw(t, "content")), rapid.SampledFrom([]int{1, 100, 5000}).Draw(t, "times"))
			total := rapid.IntRange(0, 500).Draw(t, "total")
			fail := 0
			cut, part := false, rapid.SampledFrom([]int{1, 0, 2}).Draw(t, "part")
			switch rapid.IntRange(0, 5).Draw(t, "fails") {
			case 5:
				fail = rapid.SampledFrom([]int{400, 404, 403, 409, 500, 503}).Draw(t, "status")
			case 4:
				cut = true
			}
			op := rapid.SampledFrom([]string{"download", "upload", "versions", "create", "update", "delete"}).Draw(t, "op")
			api.Handle = func(w http.ResponseWriter, _ *Call) {
				if fail != 0 {
					w.WriteHeader(fail)
					_, _ = io.WriteString(w, `{"success":false,"message":"because of that"}`)
					return
				}
				body, code := content, 200
				switch op {
				case "versions":
					w.Header().Set("X-Total-Count", strconv.Itoa(total))
				case "upload", "create":
					body, code = nil, 201
				case "update":
					body = nil
				case "delete":
					body, code = nil, 204
				}
				if cut {
					if body == nil {
						panic(http.ErrAbortHandler)
					}
					w.Header().Set("Content-Length", strconv.Itoa(len(body)))
					w.WriteHeader(code)
					_, _ = w.Write(body[:len(body)*part/3])
					panic(http.ErrAbortHandler)
				}
				w.WriteHeader(code)
				_, _ = w.Write(body)
			}
			var r Answer
			var want Call
			bkt := &msg.Bucket{Name: bucket, Versioning: len(content)%2 == 0, Readonly: total%2 == 0, StoreStrategy: int8(total % 3), DataShards: int32(total), VersionRemains: int32(n)}
			switch op {
			case "download":
				version := rapid.SampledFrom([]int{0, 1, 77, 130, 70000, 1<<31 - 1}).Draw(t, "version")
				r = a.Do(nil, "GET", "/api/objects/download/"+url.PathEscape(name), url.Values{"bucket": {bucket}, "version": {strconv.Itoa(version)}}, h, nil)
				want = Call{Method: "GET", Path: "/v1/objects/" + name, Query: url.Values{"version": {strconv.Itoa(version)}}, Header: http.Header{"Bucket": {bucket}}}
			case "upload":
				var b bytes.Buffer
				m := multipart.NewWriter(&b)
				_ = m.WriteField("bucket", bucket)
				f, _ := m.CreateFormFile("file", name)
				_, _ = f.Write(content)
				_ = m.Close()
				h["Content-Type"] = m.FormDataContentType()
				r = a.Do(nil, "PUT", "/api/objects/upload", nil, h, b.Bytes())
				sum := sha256.Sum256(content)
				want = Call{Method: "PUT", Path: "/v1/objects/" + name, Query: url.Values{}, Body: content,
					Header: http.Header{"Bucket": {bucket}, "Digest": {hex.EncodeToString(sum[:])}, "Content-Length": {strconv.Itoa(len(content))}}}
			case "versions":
				page, size := rapid.IntRange(1, 50).Draw(t, "page"), rapid.IntRange(1, 100).Draw(t, "size")
				r = a.Do(nil, "GET", "/api/metadata/versions", url.Values{"name": {name}, "bucket": {bucket}, "page": {strconv.Itoa(page)}, "pageSize": {strconv.Itoa(size)}}, h, nil)
				want = Call{Method: "GET", Path: "/v1/metadata/" + name + "/versions", Query: url.Values{"page": {strconv.Itoa(page)}, "page_size": {strconv.Itoa(size)}}, Header: http.Header{"Bucket": {bucket}}}
			case "create", "update":
				bt, _ := json.Marshal(bkt)
				h["Content-Type"] = "application/json"
				if op == "create" {
					r = a.Do(nil, "POST", "/api/metadata/create_bucket", nil, h, bt)
					want = Call{Method: "POST", Path: "/v1/bucket"}
				} else {
					r = a.Do(nil, "PUT", "/api/metadata/update_bucket", nil, h, bt)
					want = Call{Method: "PUT", Path: "/v1/bucket/" + bucket}
				}
			case "delete":
				bucket = name
				r = a.Do(nil, "DELETE", "/api/metadata/delete_bucket/"+url.PathEscape(bucket), nil, h, nil)
				want = Call{Method: "DELETE", Path: "/v1/bucket/" + bucket}
			}
			calls := api.Calls()
			c.Logf("%s of %q in %q (status %d, cut %v): %d", op, name, bucket, fail, cut, r.Code)
			c.Class(op)
			// GETs may be repeated when a connection breaks
			if len(calls) == 0 || len(calls) > 1 && !cut {
				t.Fatalf("%s of %q in %q: the API server got %d requests", op, name, bucket, len(calls))
			}
			for _, got := range calls {
				path, err := url.PathUnescape(got.Path)
				if err != nil || got.Method != want.Method || path != want.Path || strings.Count(got.Path, "/") != map[string]int{"versions": 4, "create": 2}[op]+3*b2i(op != "versions" && op != "create") {
					t.Fatalf("%s of %q in %q: the API server got %s %s", op, name, bucket, got.Method, got.Path)
				}
				if got.Header.Get("Authorization") != token {
					t.Fatalf("%s: token %q became %q", op, token, got.Header.Get("Authorization"))
				}
				if want.Query != nil && !reflect.DeepEqual(got.Query, want.Query) {
					t.Fatalf("%s of %q: query %v, not %v", op, name, got.Query, want.Query)
				}
				for k := range want.Header {
					if got.Header.Get(k) != want.Header.Get(k) {
						t.Fatalf("%s of %q in %q: header %s is %q, not %q", op, name, bucket, k, got.Header.Get(k), want.Header.Get(k))
					}
				}
				if op == "upload" && !bytes.Equal(got.Body, content) {
					t.Fatalf("upload: %d bytes became %d", len(content), len(got.Body))
				}
				if op == "create" || op == "update" {
					var b msg.Bucket
					if err := json.Unmarshal(got.Body, &b); err != nil || !reflect.DeepEqual(&b, bkt) {
						t.Fatalf("%s of bucket %+v became %s", op, bkt, got.Body)
					}
				}
			}
			switch {
			case fail != 0:
				c.NonTrivial()
				c.Class("refused by the API server")
				if r.Err != nil || r.Code != fail || fail < 500 && !bytes.Contains(r.Body, []byte("because of that")) {
					t.Fatalf("%s refused with %d: answered %v", op, fail, r)
				}
			case cut:
				c.NonTrivial()
				c.Class("answer of the API server cut")
				if r.Err == nil && r.Code < 400 {
					t.Fatalf("%s: answered %v although the API server's answer broke off", op, r)
				}
			default:
				if r.Err != nil || r.Code/100 != 2 {
					t.Fatalf("%s of %q in %q: answered %v", op, name, bucket, r)
				}
				if (op == "download" || op == "versions") && !bytes.Equal(r.Body, content) {
					t.Fatalf("%s: %d bytes became %d", op, len(content), len(r.Body))
				}
				if op == "versions" && r.Header.Get("X-Total-Count") != strconv.Itoa(total) {
					t.Fatalf("versions: total %d became %q", total, r.Header.Get("X-Total-Count"))
				}
			}
		}
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
