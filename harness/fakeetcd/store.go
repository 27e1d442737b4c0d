// Package fakeetcd is an in-memory etcd: revisions, prefix reads, transactions, watches from a
// revision and leases, with hooks for failing or delaying calls.
package fakeetcd

import (
	"bytes"
	"context"
	"errors"
	"reflect"
	"sort"
	"strings"
	"sync"

	pb "go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	"go.etcd.io/etcd/api/v3/v3rpc/rpctypes"
	clientv3 "go.etcd.io/etcd/client/v3"
)

type event struct {
	ev  *clientv3.Event
	rev int64
}

type watch struct {
	key, end []byte
	next     int // index into hist
	prevKV   bool
	ch       chan clientv3.WatchResponse
	ctx      context.Context
	broken   bool
}

// Store is the server and, at the same time, its client interfaces.
type Store struct {
	mu      sync.Mutex
	cond    *sync.Cond
	rev     int64
	kvs     map[string]*mvccpb.KeyValue
	hist    []event
	dropped int64 // revisions <= dropped are compacted away
	watches map[*watch]struct{}
	leases  map[clientv3.LeaseID]map[string]struct{}
	lseq    int64
	ended   map[clientv3.LeaseID]chan struct{}

	// Before, if set, runs before every operation ("get", "put", "delete", "txn", "watch", "grant", "keepalive") and may fail it.
	Before func(op, key string) error
	// After runs after a successful operation, before its answer is returned.
	After func(op, key string)
}

func New() *Store {
	s := &Store{rev: 1, kvs: map[string]*mvccpb.KeyValue{}, watches: map[*watch]struct{}{}, leases: map[clientv3.LeaseID]map[string]struct{}{}, ended: map[clientv3.LeaseID]chan struct{}{}}
	s.cond = sync.NewCond(&s.mu)
	return s
}

// Client returns an etcd client that works on the store.
func (s *Store) Client() *clientv3.Client {
	return &clientv3.Client{KV: s, Watcher: s, Lease: s}
}

func in(k string, key, end []byte) bool {
	if len(end) == 0 {
		return k == string(key)
	}
	if k < string(key) {
		return false
	}
	return (len(end) == 1 && end[0] == 0) || k < string(end)
}

func (s *Store) before(op, key string) error {
	if f := s.Before; f != nil {
		return f(op, key)
	}
	return nil
}

func (s *Store) after(op, key string) {
	if f := s.After; f != nil {
		f(op, key)
	}
}

func (s *Store) header() *pb.ResponseHeader { return &pb.ResponseHeader{Revision: s.rev} }

func (s *Store) match(key, end []byte) []string {
	var ks []string
	for k := range s.kvs {
		if in(k, key, end) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

func clone(kv *mvccpb.KeyValue) *mvccpb.KeyValue {
	c := *kv
	c.Key = append([]byte(nil), kv.Key...)
	c.Value = append([]byte(nil), kv.Value...)
	return &c
}

func (s *Store) doGet(op clientv3.Op) *clientv3.GetResponse {
	ks := s.match(op.KeyBytes(), op.RangeBytes())
	r := &clientv3.GetResponse{Header: s.header(), Count: int64(len(ks))}
	if op.IsCountOnly() {
		return r
	}
	if l := int(reflect.ValueOf(op).FieldByName("limit").Int()); l > 0 && l < len(ks) {
		ks = ks[:l]
		r.More = true
	}
	for _, k := range ks {
		kv := clone(s.kvs[k])
		if op.IsKeysOnly() {
			kv.Value = nil
		}
		r.Kvs = append(r.Kvs, kv)
	}
	return r
}

func (s *Store) emit(ev *clientv3.Event) {
	s.hist = append(s.hist, event{ev, s.rev})
}

func (s *Store) put(key string, val []byte, lease clientv3.LeaseID) error {
	if lease != 0 {
		m, ok := s.leases[lease]
		if !ok {
			return rpctypes.ErrLeaseNotFound
		}
		m[key] = struct{}{}
	}
	old := s.kvs[key]
	kv := &mvccpb.KeyValue{Key: []byte(key), Value: append([]byte(nil), val...), ModRevision: s.rev, CreateRevision: s.rev, Version: 1, Lease: int64(lease)}
	if old != nil {
		kv.CreateRevision = old.CreateRevision
		kv.Version = old.Version + 1
		if old.Lease != int64(lease) {
			delete(s.leases[clientv3.LeaseID(old.Lease)], key)
		}
	}
	s.kvs[key] = kv
	s.emit(&clientv3.Event{Type: mvccpb.PUT, Kv: kv, PrevKv: old})
	return nil
}

func (s *Store) del(key string) {
	old := s.kvs[key]
	delete(s.kvs, key)
	delete(s.leases[clientv3.LeaseID(old.Lease)], key)
	s.emit(&clientv3.Event{Type: mvccpb.DELETE, Kv: &mvccpb.KeyValue{Key: []byte(key), ModRevision: s.rev}, PrevKv: old})
}

func (s *Store) doPut(op clientv3.Op) (*clientv3.PutResponse, error) {
	lease := clientv3.LeaseID(reflect.ValueOf(op).FieldByName("leaseID").Int())
	if err := s.put(string(op.KeyBytes()), op.ValueBytes(), lease); err != nil {
		return nil, err
	}
	return &clientv3.PutResponse{Header: s.header()}, nil
}

func (s *Store) doDelete(op clientv3.Op) *clientv3.DeleteResponse {
	ks := s.match(op.KeyBytes(), op.RangeBytes())
	for _, k := range ks {
		s.del(k)
	}
	return &clientv3.DeleteResponse{Header: s.header(), Deleted: int64(len(ks))}
}

func (s *Store) Put(ctx context.Context, key, val string, opts ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	r, err := s.Do(ctx, clientv3.OpPut(key, val, opts...))
	return r.Put(), err
}

func (s *Store) Get(ctx context.Context, key string, opts ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	r, err := s.Do(ctx, clientv3.OpGet(key, opts...))
	return r.Get(), err
}

func (s *Store) Delete(ctx context.Context, key string, opts ...clientv3.OpOption) (*clientv3.DeleteResponse, error) {
	r, err := s.Do(ctx, clientv3.OpDelete(key, opts...))
	return r.Del(), err
}

func (s *Store) Compact(_ context.Context, rev int64, _ ...clientv3.CompactOption) (*clientv3.CompactResponse, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.dropped = rev
	return &clientv3.CompactResponse{Header: s.header()}, nil
}

func (s *Store) Do(ctx context.Context, op clientv3.Op) (clientv3.OpResponse, error) {
	var r clientv3.OpResponse
	if err := ctx.Err(); err != nil {
		return r, err
	}
	key := string(op.KeyBytes())
	name := "get"
	if op.IsPut() {
		name = "put"
	} else if op.IsDelete() {
		name = "delete"
	}
	if err := s.before(name, key); err != nil {
		return r, err
	}
	s.mu.Lock()
	switch {
	case op.IsGet():
		r = s.doGet(op).OpResponse()
	case op.IsPut():
		s.rev++
		p, err := s.doPut(op)
		if err != nil {
			s.mu.Unlock()
			return r, err
		}
		r = p.OpResponse()
	case op.IsDelete():
		s.rev++
		d := s.doDelete(op)
		r = d.OpResponse()
	default:
		s.mu.Unlock()
		return r, errors.New("fakeetcd: operation not supported")
	}
	s.cond.Broadcast()
	s.mu.Unlock()
	s.after(name, key)
	return r, nil
}

type txn struct {
	s         *Store
	ctx       context.Context
	cmps      []clientv3.Cmp
	then, els []clientv3.Op
}

func (s *Store) Txn(ctx context.Context) clientv3.Txn { return &txn{s: s, ctx: ctx} }

func (t *txn) If(cs ...clientv3.Cmp) clientv3.Txn   { t.cmps = append(t.cmps, cs...); return t }
func (t *txn) Then(ops ...clientv3.Op) clientv3.Txn { t.then = append(t.then, ops...); return t }
func (t *txn) Else(ops ...clientv3.Op) clientv3.Txn { t.els = append(t.els, ops...); return t }

func (s *Store) holds(c clientv3.Cmp) bool {
	p := pb.Compare(c)
	kv := s.kvs[string(p.Key)]
	var zero mvccpb.KeyValue
	if kv == nil {
		if p.Target == pb.Compare_VALUE {
			return false
		}
		kv = &zero
	}
	d := 0
	cmp := func(a, b int64) {
		if a < b {
			d = -1
		} else if a > b {
			d = 1
		}
	}
	switch p.Target {
	case pb.Compare_VALUE:
		d = bytes.Compare(kv.Value, p.GetValue())
	case pb.Compare_VERSION:
		cmp(kv.Version, p.GetVersion())
	case pb.Compare_CREATE:
		cmp(kv.CreateRevision, p.GetCreateRevision())
	case pb.Compare_MOD:
		cmp(kv.ModRevision, p.GetModRevision())
	case pb.Compare_LEASE:
		cmp(kv.Lease, p.GetLease())
	}
	switch p.Result {
	case pb.Compare_EQUAL:
		return d == 0
	case pb.Compare_NOT_EQUAL:
		return d != 0
	case pb.Compare_GREATER:
		return d > 0
	default:
		return d < 0
	}
}

func (t *txn) Commit() (*clientv3.TxnResponse, error) {
	s := t.s
	key := ""
	for _, o := range t.then {
		key = string(o.KeyBytes())
	}
	if err := s.before("txn", key); err != nil {
		return nil, err
	}
	s.mu.Lock()
	ok := true
	for _, c := range t.cmps {
		ok = ok && s.holds(c)
	}
	ops := t.then
	if !ok {
		ops = t.els
	}
	r := &clientv3.TxnResponse{Succeeded: ok}
	s.rev++
	for _, op := range ops {
		switch {
		case op.IsGet():
			g := s.doGet(op)
			r.Responses = append(r.Responses, &pb.ResponseOp{Response: &pb.ResponseOp_ResponseRange{ResponseRange: (*pb.RangeResponse)(g)}})
		case op.IsPut():
			p, err := s.doPut(op)
			if err != nil {
				s.mu.Unlock()
				return nil, err
			}
			r.Responses = append(r.Responses, &pb.ResponseOp{Response: &pb.ResponseOp_ResponsePut{ResponsePut: (*pb.PutResponse)(p)}})
		case op.IsDelete():
			d := s.doDelete(op)
			r.Responses = append(r.Responses, &pb.ResponseOp{Response: &pb.ResponseOp_ResponseDeleteRange{ResponseDeleteRange: (*pb.DeleteRangeResponse)(d)}})
		}
	}
	r.Header = s.header()
	s.cond.Broadcast()
	s.mu.Unlock()
	s.after("txn", key)
	return r, nil
}

// ---- watches

func (s *Store) Watch(ctx context.Context, key string, opts ...clientv3.OpOption) clientv3.WatchChan {
	op := clientv3.OpGet(key, opts...)
	w := &watch{key: op.KeyBytes(), end: op.RangeBytes(), ch: make(chan clientv3.WatchResponse), ctx: ctx, prevKV: reflect.ValueOf(op).FieldByName("prevKV").Bool()}
	if err := s.before("watch", key); err != nil {
		close(w.ch)
		return w.ch
	}
	s.mu.Lock()
	from := op.Rev()
	if from == 0 {
		from = s.rev + 1
	}
	if from <= s.dropped {
		rev := s.dropped
		s.mu.Unlock()
		go func() {
			defer close(w.ch)
			select {
			case w.ch <- clientv3.WatchResponse{Header: pb.ResponseHeader{}, Canceled: true, CompactRevision: rev}:
			case <-ctx.Done():
			}
		}()
		return w.ch
	}
	for w.next < len(s.hist) && s.hist[w.next].rev < from {
		w.next++
	}
	s.watches[w] = struct{}{}
	s.mu.Unlock()
	s.after("watch", key)
	stop := make(chan struct{})
	go func() {
		select {
		case <-ctx.Done():
		case <-stop:
		}
		s.mu.Lock()
		s.cond.Broadcast()
		s.mu.Unlock()
	}()
	go func() {
		defer close(stop)
		defer close(w.ch)
		for {
			s.mu.Lock()
			for w.next >= len(s.hist) && ctx.Err() == nil && !w.broken {
				s.cond.Wait()
			}
			if ctx.Err() != nil || w.broken {
				delete(s.watches, w)
				s.mu.Unlock()
				return
			}
			resp := clientv3.WatchResponse{Header: *s.header()}
			// as etcd does for watchers which lag behind, all at once
			for w.next < len(s.hist) {
				e := s.hist[w.next].ev
				w.next++
				if in(string(e.Kv.Key), w.key, w.end) {
					ev := &clientv3.Event{Type: e.Type, Kv: clone(e.Kv)}
					if w.prevKV && e.PrevKv != nil {
						ev.PrevKv = clone(e.PrevKv)
					}
					resp.Events = append(resp.Events, ev)
				}
			}
			s.mu.Unlock()
			if len(resp.Events) > 0 {
				select {
				case w.ch <- resp:
				case <-ctx.Done():
				}
			}
		}
	}()
	return w.ch
}

func (s *Store) RequestProgress(context.Context) error { return nil }

// Close of the Watcher and Lease interfaces.
func (s *Store) Close() error { return nil }

// BreakWatches ends every watch, as a lost connection or a compaction does.
func (s *Store) BreakWatches() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for w := range s.watches {
		w.broken = true
	}
	s.cond.Broadcast()
}

// Break ends the watches on key.
func (s *Store) Break(key string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for w := range s.watches {
		if string(w.key) == key {
			w.broken = true
		}
	}
	s.cond.Broadcast()
}

// Watched says how many unbroken watches on key there are, and whether they have handed over all events so far.
func (s *Store) Watched(key string) (n int, all bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	all = true
	for w := range s.watches {
		if string(w.key) == key && !w.broken {
			n++
			all = all && w.next >= len(s.hist)
		}
	}
	return n, all
}

// Puts returns the values put under key so far, the oldest first.
func (s *Store) Puts(key string) (r []string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, e := range s.hist {
		if string(e.ev.Kv.Key) == key && e.ev.Type == mvccpb.PUT {
			r = append(r, string(e.ev.Kv.Value))
		}
	}
	return r
}

// Caught says whether every live watch has handed over all events so far, and how many watches there are.
func (s *Store) Caught() (bool, int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for w := range s.watches {
		if w.next < len(s.hist) {
			return false, len(s.watches)
		}
	}
	return true, len(s.watches)
}

// ---- leases

func (s *Store) Grant(ctx context.Context, ttl int64) (*clientv3.LeaseGrantResponse, error) {
	if ctx.Err() != nil {
		return nil, ctx.Err()
	}
	if err := s.before("grant", ""); err != nil {
		return nil, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.lseq++
	id := clientv3.LeaseID(s.lseq)
	s.leases[id] = map[string]struct{}{}
	s.ended[id] = make(chan struct{})
	return &clientv3.LeaseGrantResponse{ResponseHeader: s.header(), ID: id, TTL: ttl}, nil
}

func (s *Store) Revoke(_ context.Context, id clientv3.LeaseID) (*clientv3.LeaseRevokeResponse, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	m, ok := s.leases[id]
	if !ok {
		return nil, rpctypes.ErrLeaseNotFound
	}
	s.rev++
	for k := range m {
		s.del(k)
	}
	delete(s.leases, id)
	close(s.ended[id])
	s.cond.Broadcast()
	return &clientv3.LeaseRevokeResponse{Header: s.header()}, nil
}

func (s *Store) KeepAlive(ctx context.Context, id clientv3.LeaseID) (<-chan *clientv3.LeaseKeepAliveResponse, error) {
	if err := s.before("keepalive", ""); err != nil {
		return nil, err
	}
	if ctx.Err() != nil {
		return nil, ctx.Err()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	end, ok := s.ended[id]
	if !ok {
		return nil, rpctypes.ErrLeaseNotFound
	}
	ch := make(chan *clientv3.LeaseKeepAliveResponse)
	go func() {
		defer close(ch)
		select {
		case <-end:
		case <-ctx.Done():
		}
	}()
	return ch, nil
}

func (s *Store) KeepAliveOnce(_ context.Context, id clientv3.LeaseID) (*clientv3.LeaseKeepAliveResponse, error) {
	return &clientv3.LeaseKeepAliveResponse{ID: id, TTL: 60}, nil
}

func (s *Store) TimeToLive(_ context.Context, id clientv3.LeaseID, _ ...clientv3.LeaseOption) (*clientv3.LeaseTimeToLiveResponse, error) {
	return &clientv3.LeaseTimeToLiveResponse{ID: id, TTL: 60}, nil
}

func (s *Store) Leases(context.Context) (*clientv3.LeaseLeasesResponse, error) {
	return &clientv3.LeaseLeasesResponse{}, nil
}

// LeaseOf tells the lease of a key and whether it lives.
func (s *Store) LeaseOf(key string) (id clientv3.LeaseID, alive bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if kv := s.kvs[key]; kv != nil {
		id = clientv3.LeaseID(kv.Lease)
		_, alive = s.leases[id]
	}
	return
}

// Keys with the prefix, in order.
func (s *Store) Keys(prefix string) (r []string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for k := range s.kvs {
		if strings.HasPrefix(k, prefix) {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return
}

// Live leases.
func (s *Store) Live() (r []clientv3.LeaseID) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for id := range s.leases {
		r = append(r, id)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return
}
