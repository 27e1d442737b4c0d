// Package verifenv builds a metadata server's parts for the property checks
// the way internal/app does, over a database in a scratch directory.
package verifenv

import (
	"common/cache"
	"common/proto/msg"
	"metaserver/internal/controller/grpc"
	"metaserver/internal/usecase/db"
	"metaserver/internal/usecase/raftimpl"
	"metaserver/internal/usecase/repo"
	"metaserver/internal/usecase/service"
	"os"
	"path/filepath"
	"time"

	"github.com/allegro/bigcache/v3"
	"github.com/hashicorp/raft"
	bolt "go.etcd.io/bbolt"
)

// Env is one metadata server without its network.
type Env struct {
	Dir       string
	Path      string
	Storage   *db.Storage
	Cache     cache.ICache
	MetaRepo  *repo.MetadataRepo
	BatchMeta *repo.BatchMetaRepo
	HashIndex *repo.HashIndexRepo
	Bucket    *repo.BucketRepo
	FSM       raft.FSM
	Raft      *raftimpl.RaftWrapper
	Meta      *service.MetadataService
	Buckets   *service.BucketService
	Api       *grpc.MetadataApiServer
}

// NewCache makes a cache as a server has it, but small.
func NewCache() cache.ICache {
	conf := bigcache.DefaultConfig(time.Hour)
	conf.Shards = 16
	conf.CleanWindow = 0
	conf.MaxEntrySize = 512
	conf.MaxEntriesInWindow = 64
	conf.Verbose = false
	return cache.NewCache(conf)
}

// NoCache never keeps anything.
type NoCache struct{}

func (NoCache) NotifyEvicted() <-chan cache.Entry { return nil }
func (NoCache) Get(string) []byte                 { return nil }
func (NoCache) HasGet(string) ([]byte, bool)      { return nil, false }
func (NoCache) Has(string) bool                   { return false }
func (NoCache) Set(string, []byte) bool           { return false }
func (NoCache) SetGob(string, interface{}) bool   { return false }
func (NoCache) Refresh(string)                    {}
func (NoCache) Delete(string)                     {}
func (NoCache) Reset()                            {}
func (NoCache) Close() error                      { return nil }

// Open opens (or creates) the database at path.
func Open(path string) *db.Storage {
	st := db.NewStorage()
	if err := st.Open(path); err != nil {
		panic(err)
	}
	Tune(st)
	return st
}

// Tune makes a scratch database fast.
func Tune(st *db.Storage) {
	st.DB().NoSync = true
	st.DB().NoFreelistSync = true
	st.DB().MaxBatchDelay = 0
}

// Grow makes the database file so large that a write never waits for a read transaction of the same goroutine.
func (e *Env) Grow() {
	name := []byte("verif.grow")
	for _, fn := range []func(*bolt.Tx) error{
		func(tx *bolt.Tx) error {
			b, err := tx.CreateBucket(name)
			if err != nil {
				return err
			}
			return b.Put(name, make([]byte, 1<<20))
		},
		func(tx *bolt.Tx) error { return tx.DeleteBucket(name) },
	} {
		if err := e.Storage.DB().Update(fn); err != nil {
			panic(err)
		}
	}
}

// New makes a server of its own in a fresh directory. rw may be nil.
func New(c cache.ICache, rw *raftimpl.RaftWrapper) *Env {
	dir, err := os.MkdirTemp("", "meta")
	if err != nil {
		panic(err)
	}
	e := &Env{Dir: dir, Path: filepath.Join(dir, "meta.db")}
	e.Wire(Open(e.Path), c, rw)
	return e
}

// Wire connects the parts like internal/app does.
func (e *Env) Wire(st *db.Storage, c cache.ICache, rw *raftimpl.RaftWrapper) {
	if c == nil {
		c = NewCache()
	}
	if rw == nil {
		rw = raftimpl.NewDisabledRaft()
	}
	e.Storage, e.Cache, e.Raft = st, c, rw
	metaCache, bucketCache := repo.NewMetadataCacheRepo(c), repo.NewBucketCacheRepo(c)
	e.MetaRepo = repo.NewMetadataRepo(st, metaCache)
	e.Bucket = repo.NewBucketRepo(st, bucketCache)
	e.BatchMeta = repo.NewBatchRepo(st, metaCache)
	e.HashIndex = repo.NewHashIndexRepo(st)
	e.FSM = raftimpl.NewFSM(e.MetaRepo, e.BatchMeta, e.Bucket, repo.NewBatchBucketRepo(st, bucketCache), e.MetaRepo)
	e.WireServices(rw)
}

// WireServices connects the services to rw.
func (e *Env) WireServices(rw *raftimpl.RaftWrapper) {
	e.Raft = rw
	e.Buckets = service.NewBucketService(e.Bucket, rw)
	e.Meta = service.NewMetadataService(e.MetaRepo, repo.NewBatchRepo(e.Storage, repo.NewMetadataCacheRepo(e.Cache)), e.HashIndex, rw)
	e.Api = grpc.NewMetadataApiServer(e.Meta, e.Buckets)
}

// Uncached gives a second view of the same database that caches nothing.
func (e *Env) Uncached() *Env {
	u := &Env{Dir: e.Dir, Path: e.Path}
	u.Wire(e.Storage, NoCache{}, nil)
	return u
}

// Close ends the server and removes its files.
func (e *Env) Close() {
	_ = e.Storage.Stop()
	_ = os.RemoveAll(e.Dir)
}

// CopyVersion makes a deep copy.
func CopyVersion(v *msg.Version) *msg.Version {
	c := *v
	c.Locate = append([]string{}, v.Locate...)
	return &c
}

// CopyBucket makes a deep copy.
func CopyBucket(b *msg.Bucket) *msg.Bucket {
	c := *b
	c.Policies = append([]string{}, b.Policies...)
	return &c
}

// CopyMeta makes a copy without summary.
func CopyMeta(m *msg.Metadata) *msg.Metadata {
	c := *m
	c.Extra = nil
	return &c
}

// BatchBuckets gives the bucket repository the replicated log uses.
func (e *Env) BatchBuckets() *repo.BatchBucketRepo {
	return repo.NewBatchBucketRepo(e.Storage, repo.NewBucketCacheRepo(e.Cache))
}
