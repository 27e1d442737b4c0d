package verifenv

import (
	ctrl "apiserver/internal/controller/http"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"sync"
	"sync/atomic"
	"time"
)

// Web is the public HTTP API of an API, behind one listener whatever is reset.
type Web struct {
	api     *API
	addr    string
	handler atomic.Pointer[http.Handler]
	active  atomic.Int64
	// conns have been dialed, but neither a request nor their end has been noticed
	conns  atomic.Int64
	srv    *http.Server
	Client *http.Client
}

// NewWeb starts it.
func NewWeb(a *API) *Web {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	w := &Web{api: a, addr: l.Addr().String()}
	w.Client = &http.Client{Transport: &http.Transport{
		MaxIdleConnsPerHost: 100,
		DialContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
			c, err := (&net.Dialer{}).DialContext(ctx, network, addr)
			if err == nil {
				w.conns.Add(1)
			}
			return c, err
		},
	}}
	w.Reset()
	var known sync.Map // connections not heard of yet
	w.srv = &http.Server{
		Handler: w,
		ConnContext: func(ctx context.Context, c net.Conn) context.Context {
			once := new(sync.Once)
			known.Store(c, once)
			return context.WithValue(ctx, heardOf{}, once)
		},
		ConnState: func(c net.Conn, s http.ConnState) {
			if s == http.StateClosed {
				if once, ok := known.LoadAndDelete(c); ok {
					once.(*sync.Once).Do(w.heard)
				}
			}
		},
	}
	go func() { _ = w.srv.Serve(l) }()
	return w
}

type heardOf struct{}

func (w *Web) heard() { w.conns.Add(-1) }

// Reset after the API has been.
func (w *Web) Reset() {
	h := ctrl.NewHttpServer("0", w.api.Service, w.api.Meta, w.api.Bucket).Handler
	w.handler.Store(&h)
}

func (w *Web) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	w.active.Add(1)
	r.Context().Value(heardOf{}).(*sync.Once).Do(w.heard)
	defer w.active.Add(-1)
	(*w.handler.Load()).ServeHTTP(rw, r)
}

// Quiet waits until no request is being handled, here or by the data servers.
func (w *Web) Quiet(d time.Duration) bool {
	// a request that broke off may not have been taken up yet
	return Eventually(d, func() bool {
		w.Client.CloseIdleConnections()
		return w.conns.Load() <= 0 && w.active.Load() == 0 && w.api.Active.Load() == 0
	})
}

// Answer of the API.
type Answer struct {
	Status int
	Header http.Header
	Length int64
	Body   []byte
	Err    error // the answer broke off
}

func (a Answer) String() string {
	b := a.Body
	if len(b) > 120 {
		b = b[:120]
	}
	return fmt.Sprintf("%d, length %d, %q, %v", a.Status, a.Length, b, a.Err)
}

// Fresh makes the next request use a connection of its own.
func (w *Web) Fresh() { w.Client.CloseIdleConnections() }

// Call with a body (nil for none) of the declared length (-1: unknown).
func (w *Web) Call(method, path string, query url.Values, header map[string]string, body io.Reader, length int64) (Answer, error) {
	u := "http://" + w.addr + path
	if len(query) > 0 {
		u += "?" + query.Encode()
	}
	req, err := http.NewRequest(method, u, nil)
	if err != nil {
		return Answer{}, err
	}
	if body != nil {
		req.Body = io.NopCloser(body)
		req.ContentLength = length
		if length == 0 {
			req.Body = http.NoBody
		}
	}
	for k, v := range header {
		req.Header.Set(k, v)
	}
	resp, err := w.Client.Do(req)
	if err != nil {
		return Answer{}, err
	}
	defer resp.Body.Close()
	bt, err := io.ReadAll(resp.Body)
	return Answer{Status: resp.StatusCode, Header: resp.Header, Length: resp.ContentLength, Body: bt, Err: err}, nil
}

// Interrupted is a body that breaks off after its data.
func Interrupted(data []byte) io.Reader {
	return io.MultiReader(bytes.NewReader(data), errReader{})
}

type errReader struct{}

func (errReader) Read([]byte) (int, error) { return 0, errors.New("interrupted") }
