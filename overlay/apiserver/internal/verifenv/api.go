package verifenv

import (
	"apiserver/config"
	"apiserver/internal/entity"
	"apiserver/internal/usecase"
	"apiserver/internal/usecase/pool"
	"apiserver/internal/usecase/repo"
	"apiserver/internal/usecase/service"
	"common/cst"
	"common/logs"
	"common/registry"
	"common/response"
	"context"
	"fmt"
	"io"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifharness/fakeetcd"

	"github.com/gin-gonic/gin"
)

func init() {
	gin.SetMode(gin.ReleaseMode)
	if os.Getenv("VERIF_VERBOSE") != "2" {
		logs.Std().SetOutput(io.Discard)
		os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	}
}

type record struct {
	created, seq int
	versions     []*entity.Version
}

// Meta keeps metadata and buckets as the metadata servers do.
type Meta struct {
	mu      sync.Mutex
	seq     int
	records map[string]*record
	buckets map[string]entity.Bucket
	// Fault fails a call ("get", "insert", "add", "update", "remove", "bucket") before or after it took effect.
	Fault func(op string, after bool) error
	calls []string
}

var (
	_ usecase.IMetaService = (*Meta)(nil)
	_ repo.IBucketRepo     = (*Buckets)(nil)
)

// NewMeta is empty.
func NewMeta() *Meta {
	return &Meta{records: map[string]*record{}, buckets: map[string]entity.Bucket{}}
}

func (m *Meta) enter(op string, args ...any) error {
	m.calls = append(m.calls, strings.TrimSpace(op+" "+fmt.Sprintln(args...)))
	if m.Fault != nil {
		return m.Fault(op, false)
	}
	return nil
}

func (m *Meta) leave(op string) error {
	if m.Fault != nil {
		return m.Fault(op, true)
	}
	return nil
}

// Calls made so far that change something.
func (m *Meta) Calls() (r []string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, c := range m.calls {
		if !strings.HasPrefix(c, "get") && !strings.HasPrefix(c, "bucket") {
			r = append(r, c)
		}
	}
	return
}

func copyVersion(v *entity.Version) *entity.Version {
	c := *v
	c.Locate = append([]string(nil), v.Locate...)
	return &c
}

var errNotFound = response.NewError(404, "not found")

func id(bucket, name string) string { return bucket + "/" + name }

// Versions stored of an object.
func (m *Meta) Versions(bucket, name string) (r []*entity.Version) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if rec := m.records[id(bucket, name)]; rec != nil {
		for _, v := range rec.versions {
			r = append(r, copyVersion(v))
		}
	}
	return
}

// All versions stored, by object.
func (m *Meta) All() map[string]int {
	m.mu.Lock()
	defer m.mu.Unlock()
	r := map[string]int{}
	for k, v := range m.records {
		r[k] = len(v.versions)
	}
	return r
}

func (m *Meta) add(key string, v *entity.Version) int32 {
	rec := m.records[key]
	rec.seq++
	v = copyVersion(v)
	v.Sequence = int32(rec.seq)
	rec.versions = append(rec.versions, v)
	return v.Sequence
}

// SaveMetadata inserts the metadata and its first version.
func (m *Meta) SaveMetadata(md *entity.Metadata) (int32, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.enter("insert", md.Bucket, md.Name); err != nil {
		return 0, err
	}
	key := id(md.Bucket, md.Name)
	if m.records[key] != nil {
		return 0, usecase.ErrMetadataExists
	}
	m.records[key] = &record{}
	if err := m.leave("insert"); err != nil || len(md.Versions) == 0 {
		return 0, err
	}
	if err := m.enter("add", md.Bucket, md.Name); err != nil {
		return 0, err
	}
	seq := m.add(key, md.Versions[0])
	return seq, m.leave("add")
}

// AddVersion adds a version.
func (m *Meta) AddVersion(name, bucket string, v *entity.Version) (int32, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.enter("add", bucket, name); err != nil {
		return -1, err
	}
	if m.records[id(bucket, name)] == nil {
		return -1, errNotFound
	}
	seq := m.add(id(bucket, name), v)
	if err := m.leave("add"); err != nil {
		return -1, err
	}
	v.Sequence = seq
	return seq, nil
}

func (m *Meta) find(bucket, name string, seq int32) (*record, int) {
	rec := m.records[id(bucket, name)]
	if rec == nil {
		return nil, -1
	}
	if seq == 0 {
		return rec, len(rec.versions) - 1
	}
	for i, v := range rec.versions {
		if v.Sequence == seq {
			return rec, i
		}
	}
	return rec, -1
}

// UpdateVersion replaces a version.
func (m *Meta) UpdateVersion(name, bucket string, v *entity.Version) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.enter("update", bucket, name, v.Sequence, v.Locate); err != nil {
		return err
	}
	rec, i := m.find(bucket, name, v.Sequence)
	if i < 0 || v.Sequence == 0 {
		return errNotFound
	}
	rec.versions[i] = copyVersion(v)
	return m.leave("update")
}

// RemoveVersion removes a version.
func (m *Meta) RemoveVersion(name, bucket string, seq int32) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.enter("remove", bucket, name, seq); err != nil {
		return err
	}
	if seq <= 0 {
		return response.NewError(400, "metadata id and version required")
	}
	rec, i := m.find(bucket, name, seq)
	if i < 0 {
		return errNotFound
	}
	rec.versions = append(rec.versions[:i:i], rec.versions[i+1:]...)
	return m.leave("remove")
}

// GetVersion finds a version, the last one for 0.
func (m *Meta) GetVersion(name, bucket string, seq int32) (*entity.Version, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.enter("get", bucket, name, seq); err != nil {
		return nil, err
	}
	rec, i := m.find(bucket, name, seq)
	if i < 0 {
		return nil, errNotFound
	}
	return copyVersion(rec.versions[i]), m.leave("get")
}

// GetMetadata finds metadata with the wanted version.
func (m *Meta) GetMetadata(name, bucket string, ver int32, extra bool) (*entity.Metadata, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.enter("get", bucket, name, ver); err != nil {
		return nil, err
	}
	rec := m.records[id(bucket, name)]
	if rec == nil {
		return nil, errNotFound
	}
	md := &entity.Metadata{Name: name, Bucket: bucket}
	if n := len(rec.versions); extra && n > 0 {
		md.Extra = entity.Extra{Total: n, FirstVersion: int(rec.versions[0].Sequence), LastVersion: int(rec.versions[n-1].Sequence)}
	}
	if ver != int32(entity.VerModeNot) {
		_, i := m.find(bucket, name, ver)
		if i < 0 {
			return nil, errNotFound
		}
		md.Versions = []*entity.Version{copyVersion(rec.versions[i])}
	}
	return md, m.leave("get")
}

// SetFault from now on.
func (m *Meta) SetFault(f func(op string, after bool) error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.Fault = f
}

// SetBucket creates or replaces a bucket.
func (m *Meta) SetBucket(b entity.Bucket) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.buckets[b.Name] = b
}

// Buckets is the bucket part of Meta.
type Buckets struct{ *Meta }

// Get a bucket.
func (b *Buckets) Get(name string) (*entity.Bucket, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if err := b.enter("bucket", name); err != nil {
		return nil, err
	}
	v, ok := b.buckets[name]
	if !ok {
		return nil, errNotFound
	}
	return &v, nil
}

// Update a bucket.
func (b *Buckets) Update(v *entity.Bucket) error { return b.set("bucket-update", v) }

// Create a bucket.
func (b *Buckets) Create(v *entity.Bucket) error { return b.set("bucket-create", v) }

func (b *Buckets) set(op string, v *entity.Bucket) error {
	b.mu.Lock()
	defer b.mu.Unlock()
	if err := b.enter(op, v.Name); err != nil {
		return err
	}
	b.buckets[v.Name] = *v
	return nil
}

// Delete a bucket.
func (b *Buckets) Delete(name string) error {
	b.mu.Lock()
	defer b.mu.Unlock()
	if err := b.enter("bucket-delete", name); err != nil {
		return err
	}
	delete(b.buckets, name)
	return nil
}

// API is the API server of this process (its parts are global).
type API struct {
	*Cluster
	Pick    *RoundRobin
	Etcd    *fakeetcd.Store
	Meta    *Meta
	Service *service.ObjectService
	Bucket  *Buckets
	// Locate answers for a shard asked for: raw answers. By default all servers that have it answer.
	mu     sync.Mutex
	locate func(hash string, idx int) []string
	disc   *registry.EtcdDiscovery
}

// NewAPI runs over n data servers.
func NewAPI(n int) *API {
	a := &API{Cluster: NewCluster(n)}
	a.Pick = &RoundRobin{cl: a.Cluster}
	a.Reset()
	return a
}

// Group all servers of the checks belong to.
const Group = "verif"

// Reset starts anew: nothing stored, all servers registered, the default configuration.
func (a *API) Reset() {
	a.Cluster.Reset()
	a.Cluster.Pad = true
	a.Meta = NewMeta()
	a.Etcd = fakeetcd.New()
	a.Etcd.After = a.onEtcd
	a.SetLocate(nil)
	if a.disc != nil {
		a.disc.Close()
		a.disc = nil
	}
	cfg := &config.Config{Port: "1", SelectStrategy: "random"}
	cfg.Discovery = config.DiscoveryConfig{DataServName: "objectserver", MetaServName: "metaserver"}
	cfg.Registry = registry.Config{ServerIP: "127.0.0.1", ServerID: "api", ServerPort: "1", Group: Group, Name: "apiserver", Services: []string{"objectserver", "metaserver"}}
	cfg.Object = config.ObjectConfig{
		DistinctSize:    1 << 40,
		DistinctTimeout: 3 * time.Second,
		ReedSolomon:     config.RsConfig{DataShards: 4, ParityShards: 2, BlockPerShard: 16384},
		Replication:     config.ReplicationConfig{CopiesCount: 3, BlockSize: 65536},
	}
	pool.Config = cfg
	pool.Etcd = a.Etcd.Client()
	pool.Balancer = a.Pick
	a.Pick.Set(0)
	a.Register(a.Addrs()...)
	a.disc = registry.NewEtcdDiscovery(pool.Etcd, &cfg.Registry)
	pool.Discovery = a.disc
	if !Eventually(10*time.Second, func() bool { return len(a.disc.GetServices("objectserver")) == len(a.Servers) }) {
		panic("data servers are not discovered")
	}
	a.Bucket = &Buckets{a.Meta}
	a.Service = service.NewObjectService(a.Meta, a.Bucket, pool.Etcd)
}

// Register makes these the data servers.
func (a *API) Register(addrs ...string) {
	prefix := cst.EtcdPrefix.FmtRegistry(Group, "objectserver") + "/"
	ctx := context.Background()
	in := map[string]bool{}
	for _, s := range addrs {
		in[s] = true
	}
	for i, d := range a.Servers {
		key := fmt.Sprint(prefix, "d", i)
		if in[d.Addr] {
			_, _ = a.Etcd.Put(ctx, key, d.Addr)
		} else {
			_, _ = a.Etcd.Delete(ctx, key)
		}
	}
	if a.disc == nil {
		return
	}
	want := append([]string(nil), addrs...)
	sort.Strings(want)
	if !Eventually(10*time.Second, func() bool {
		got := a.disc.GetServices("objectserver")
		sort.Strings(got)
		return fmt.Sprint(got) == fmt.Sprint(want)
	}) {
		panic(fmt.Sprintf("registered are %q, discovered %q", want, a.disc.GetServices("objectserver")))
	}
}

// SetLocate decides on the answers to locating.
func (a *API) SetLocate(f func(hash string, idx int) []string) {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.locate = f
}

// Located are the answers of the servers that have the shard.
func (a *API) Located(hash string, idx int) (r []string) {
	for _, d := range a.Servers {
		if d.Object(fmt.Sprint(hash, ".", idx)) != nil {
			r = append(r, fmt.Sprint(d.Addr, "#", idx))
		}
	}
	return
}

func (a *API) onEtcd(op, key string) {
	if op != "put" || key != cst.EtcdPrefix.LocationSubKey {
		return
	}
	resp, err := a.Etcd.Get(context.Background(), key)
	if err != nil || len(resp.Kvs) == 0 {
		return
	}
	// hash.idx#key
	val := string(resp.Kvs[0].Value)
	i, j := strings.LastIndexByte(val, '.'), strings.LastIndexByte(val, '#')
	if i < 0 || j < i {
		return
	}
	hash, to := val[:i], val[j+1:]
	idx, _ := strconv.Atoi(val[i+1 : j])
	a.mu.Lock()
	f := a.locate
	a.mu.Unlock()
	if f == nil {
		f = a.Located
	}
	for _, v := range f(hash, idx) {
		_, _ = a.Etcd.Put(context.Background(), to, v)
	}
}

// AllCalls made so far.
func (m *Meta) AllCalls() []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]string(nil), m.calls...)
}
