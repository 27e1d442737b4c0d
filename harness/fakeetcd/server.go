package fakeetcd

import (
	"context"
	"io"
	"net"
	"sync"

	pb "go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	"go.etcd.io/etcd/api/v3/v3rpc/rpctypes"
	clientv3 "go.etcd.io/etcd/client/v3"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// Serve the store to etcd clients of other processes.
func (s *Store) Serve() (addr string, stop func(), err error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "", nil, err
	}
	g := grpc.NewServer()
	sv := &server{s: s}
	pb.RegisterKVServer(g, sv)
	pb.RegisterWatchServer(g, sv)
	pb.RegisterLeaseServer(g, sv)
	pb.RegisterAuthServer(g, sv)
	go func() { _ = g.Serve(l) }()
	return l.Addr().String(), g.Stop, nil
}

type server struct {
	pb.UnimplementedAuthServer
	pb.UnimplementedLeaseServer
	s *Store
}

func rpcErr(err error) error {
	if err == nil {
		return nil
	}
	if err.Error() == "etcdserver: requested lease not found" {
		return rpctypes.ErrGRPCLeaseNotFound
	}
	return status.Error(codes.Unavailable, err.Error())
}

func (v *server) Authenticate(context.Context, *pb.AuthenticateRequest) (*pb.AuthenticateResponse, error) {
	return &pb.AuthenticateResponse{Header: &pb.ResponseHeader{}, Token: "token"}, nil
}

func rangeOp(r *pb.RangeRequest) clientv3.Op {
	opts := []clientv3.OpOption{clientv3.WithLimit(r.Limit)}
	if len(r.RangeEnd) > 0 {
		opts = append(opts, clientv3.WithRange(string(r.RangeEnd)))
	}
	if r.CountOnly {
		opts = append(opts, clientv3.WithCountOnly())
	}
	if r.KeysOnly {
		opts = append(opts, clientv3.WithKeysOnly())
	}
	return clientv3.OpGet(string(r.Key), opts...)
}

func putOp(r *pb.PutRequest) clientv3.Op {
	return clientv3.OpPut(string(r.Key), string(r.Value), clientv3.WithLease(clientv3.LeaseID(r.Lease)))
}

func deleteOp(r *pb.DeleteRangeRequest) clientv3.Op {
	var opts []clientv3.OpOption
	if len(r.RangeEnd) > 0 {
		opts = append(opts, clientv3.WithRange(string(r.RangeEnd)))
	}
	return clientv3.OpDelete(string(r.Key), opts...)
}

func (v *server) Range(ctx context.Context, r *pb.RangeRequest) (*pb.RangeResponse, error) {
	resp, err := v.s.Do(ctx, rangeOp(r))
	if err != nil {
		return nil, rpcErr(err)
	}
	return (*pb.RangeResponse)(resp.Get()), nil
}

func (v *server) Put(ctx context.Context, r *pb.PutRequest) (*pb.PutResponse, error) {
	resp, err := v.s.Do(ctx, putOp(r))
	if err != nil {
		return nil, rpcErr(err)
	}
	return (*pb.PutResponse)(resp.Put()), nil
}

func (v *server) DeleteRange(ctx context.Context, r *pb.DeleteRangeRequest) (*pb.DeleteRangeResponse, error) {
	resp, err := v.s.Do(ctx, deleteOp(r))
	if err != nil {
		return nil, rpcErr(err)
	}
	return (*pb.DeleteRangeResponse)(resp.Del()), nil
}

func ops(rs []*pb.RequestOp) (res []clientv3.Op) {
	for _, r := range rs {
		switch {
		case r.GetRequestRange() != nil:
			res = append(res, rangeOp(r.GetRequestRange()))
		case r.GetRequestPut() != nil:
			res = append(res, putOp(r.GetRequestPut()))
		case r.GetRequestDeleteRange() != nil:
			res = append(res, deleteOp(r.GetRequestDeleteRange()))
		}
	}
	return
}

func (v *server) Txn(ctx context.Context, r *pb.TxnRequest) (*pb.TxnResponse, error) {
	var cmps []clientv3.Cmp
	for _, c := range r.Compare {
		cmps = append(cmps, clientv3.Cmp(*c))
	}
	resp, err := v.s.Txn(ctx).If(cmps...).Then(ops(r.Success)...).Else(ops(r.Failure)...).Commit()
	if err != nil {
		return nil, rpcErr(err)
	}
	return (*pb.TxnResponse)(resp), nil
}

func (v *server) Compact(context.Context, *pb.CompactionRequest) (*pb.CompactionResponse, error) {
	return nil, status.Error(codes.Unimplemented, "compact")
}

func (v *server) Watch(st pb.Watch_WatchServer) error {
	ctx, cancel := context.WithCancel(st.Context())
	defer cancel()
	var mu sync.Mutex
	send := func(r *pb.WatchResponse) {
		mu.Lock()
		defer mu.Unlock()
		_ = st.Send(r)
	}
	stops := map[int64]func(){}
	var next int64
	for {
		req, err := st.Recv()
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
		if c := req.GetCancelRequest(); c != nil {
			if f := stops[c.WatchId]; f != nil {
				f()
				delete(stops, c.WatchId)
				send(&pb.WatchResponse{Header: &pb.ResponseHeader{}, WatchId: c.WatchId, Canceled: true})
			}
			continue
		}
		c := req.GetCreateRequest()
		if c == nil {
			continue
		}
		id := next
		next++
		wctx, stop := context.WithCancel(ctx)
		stops[id] = stop
		var opts []clientv3.OpOption
		if len(c.RangeEnd) > 0 {
			opts = append(opts, clientv3.WithRange(string(c.RangeEnd)))
		}
		if c.PrevKv {
			opts = append(opts, clientv3.WithPrevKV())
		}
		v.s.mu.Lock()
		now := v.s.rev
		v.s.mu.Unlock()
		from := c.StartRevision
		if from == 0 {
			from = now + 1
		}
		opts = append(opts, clientv3.WithRev(from))
		ch := v.s.Watch(wctx, string(c.Key), opts...)
		send(&pb.WatchResponse{Header: &pb.ResponseHeader{Revision: now}, WatchId: id, Created: true})
		go func() {
			for r := range ch {
				resp := &pb.WatchResponse{Header: &r.Header, WatchId: id, Canceled: r.Canceled, CompactRevision: r.CompactRevision}
				for _, e := range r.Events {
					resp.Events = append(resp.Events, (*mvccpb.Event)(e))
				}
				send(resp)
			}
		}()
	}
}

func (v *server) LeaseGrant(ctx context.Context, r *pb.LeaseGrantRequest) (*pb.LeaseGrantResponse, error) {
	resp, err := v.s.Grant(ctx, r.TTL)
	if err != nil {
		return nil, rpcErr(err)
	}
	return &pb.LeaseGrantResponse{Header: resp.ResponseHeader, ID: int64(resp.ID), TTL: resp.TTL}, nil
}

func (v *server) LeaseRevoke(ctx context.Context, r *pb.LeaseRevokeRequest) (*pb.LeaseRevokeResponse, error) {
	if _, err := v.s.Revoke(ctx, clientv3.LeaseID(r.ID)); err != nil {
		return nil, rpcErr(err)
	}
	return &pb.LeaseRevokeResponse{Header: &pb.ResponseHeader{}}, nil
}

func (v *server) LeaseKeepAlive(st pb.Lease_LeaseKeepAliveServer) error {
	for {
		r, err := st.Recv()
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
		v.s.mu.Lock()
		_, ok := v.s.leases[clientv3.LeaseID(r.ID)]
		v.s.mu.Unlock()
		resp := &pb.LeaseKeepAliveResponse{Header: &pb.ResponseHeader{}, ID: r.ID}
		if ok {
			resp.TTL = 5
		}
		if err := st.Send(resp); err != nil {
			return err
		}
	}
}

// Expire the leases of the keys with the prefix, as if whoever holds them had stopped.
func (s *Store) Expire(key string) {
	s.mu.Lock()
	var ids []clientv3.LeaseID
	for id, ks := range s.leases {
		if _, ok := ks[key]; ok {
			ids = append(ids, id)
		}
	}
	s.mu.Unlock()
	for _, id := range ids {
		_, _ = s.Revoke(context.Background(), id)
	}
}

// Value of a key.
func (s *Store) Value(key string) (string, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	kv, ok := s.kvs[key]
	if !ok {
		return "", false
	}
	return string(kv.Value), true
}
