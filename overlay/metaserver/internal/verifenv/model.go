package verifenv

import (
	"common/proto/msg"
	"common/response"
	"errors"
	"fmt"
	"metaserver/internal/usecase"
	"reflect"
	"sort"
	"strings"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// Err is the class of an answer.
type Err int

const (
	OK Err = iota
	NotFound
	Exists
	Old
	Other
)

func (e Err) String() string {
	return [...]string{"ok", "not-found", "exists", "stale", "other-error"}[e]
}

// ClassOf classifies the error of a service call.
func ClassOf(err error) Err {
	switch {
	case err == nil:
		return OK
	case errors.Is(err, usecase.ErrNotFound):
		return NotFound
	case errors.Is(err, usecase.ErrExists):
		return Exists
	case errors.Is(err, usecase.ErrOldData):
		return Old
	case response.CheckErrStatus(404, err):
		return NotFound
	}
	return Other
}

// ClassOfGrpc classifies the error of a gRPC handler; refused counts every refusal but not-found.
func ClassOfGrpc(err error) Err {
	if err == nil {
		return OK
	}
	if status.Code(err) == codes.NotFound || errors.Is(err, usecase.ErrNotFound) {
		return NotFound
	}
	return Other
}

// Object is one object of the model.
type Object struct {
	Meta msg.Metadata
	Seq  uint64
	Vers map[uint64]*msg.Version
}

// Model is the plain in-memory server.
type Model struct {
	Objs    map[string]*Object
	Buckets map[string]*msg.Bucket
}

func NewModel() *Model {
	return &Model{map[string]*Object{}, map[string]*msg.Bucket{}}
}

// Clone makes a deep copy.
func (m *Model) Clone() *Model {
	c := NewModel()
	for k, o := range m.Objs {
		n := &Object{Meta: o.Meta, Seq: o.Seq, Vers: map[uint64]*msg.Version{}}
		for s, v := range o.Vers {
			n.Vers[s] = CopyVersion(v)
		}
		c.Objs[k] = n
	}
	for k, b := range m.Buckets {
		c.Buckets[k] = CopyBucket(b)
	}
	return c
}

// Numbers of the live versions in increasing order.
func (o *Object) Numbers() []uint64 {
	res := make([]uint64, 0, len(o.Vers))
	for s := range o.Vers {
		res = append(res, s)
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}

func (o *Object) Last() *msg.Version {
	n := o.Numbers()
	if len(n) == 0 {
		return nil
	}
	return o.Vers[n[len(n)-1]]
}

func (m *Model) AddMeta(id string, data *msg.Metadata) Err {
	if m.Objs[id] != nil {
		return Exists
	}
	m.Objs[id] = &Object{Meta: *CopyMeta(data), Vers: map[uint64]*msg.Version{}}
	return OK
}

func (m *Model) UpdateMeta(id string, data *msg.Metadata) Err {
	o := m.Objs[id]
	if o == nil {
		return NotFound
	}
	if data.UpdateTime <= o.Meta.UpdateTime {
		return Old
	}
	c := *CopyMeta(data)
	c.Bucket, c.CreateTime = o.Meta.Bucket, o.Meta.CreateTime
	o.Meta = c
	return OK
}

func (m *Model) RemoveMeta(id string) Err {
	delete(m.Objs, id)
	return OK
}

// AddVer gives the new version its number.
func (m *Model) AddVer(id string, data *msg.Version) (uint64, Err) {
	o := m.Objs[id]
	if o == nil {
		return 0, NotFound
	}
	o.Seq++
	c := CopyVersion(data)
	c.Sequence = o.Seq
	o.Vers[o.Seq] = c
	return o.Seq, OK
}

// PutVer keeps the number the version already has (migration).
func (m *Model) PutVer(id string, data *msg.Version) Err {
	o := m.Objs[id]
	if o == nil {
		return NotFound
	}
	for _, x := range m.Objs {
		for _, v := range x.Vers {
			if v.UniqueId == data.UniqueId {
				return Exists
			}
		}
	}
	if o.Vers[data.Sequence] != nil {
		return Exists
	}
	if data.Sequence > o.Seq {
		o.Seq = data.Sequence
	}
	o.Vers[data.Sequence] = CopyVersion(data)
	return OK
}

func (m *Model) UpdateVer(id string, data *msg.Version) Err {
	o := m.Objs[id]
	if o == nil || o.Vers[data.Sequence] == nil {
		return NotFound
	}
	old := o.Vers[data.Sequence]
	if data.Ts <= old.Ts {
		return Old
	}
	c := CopyVersion(data)
	c.UniqueId, c.Hash, c.Sequence = old.UniqueId, old.Hash, old.Sequence
	o.Vers[c.Sequence] = c
	return OK
}

func (m *Model) RemoveVer(id string, ver uint64) Err {
	o := m.Objs[id]
	if o == nil {
		return OK
	}
	if o.Vers[ver] == nil {
		return NotFound
	}
	delete(o.Vers, ver)
	return OK
}

func (m *Model) RemoveAllVer(id string) Err {
	o := m.Objs[id]
	if o == nil {
		return NotFound
	}
	o.Vers = map[uint64]*msg.Version{}
	return OK
}

// ByHash gives all live versions with the hash.
func (m *Model) ByHash(hash string) []*msg.Version {
	var res []*msg.Version
	for _, o := range m.Objs {
		for _, v := range o.Vers {
			if v.Hash == hash {
				res = append(res, v)
			}
		}
	}
	return res
}

// IDs with the prefix in order.
func (m *Model) IDs(prefix string) []string {
	var res []string
	for k := range m.Objs {
		if strings.HasPrefix(k, prefix) {
			res = append(res, k)
		}
	}
	sort.Strings(res)
	return res
}

// BucketNames with the prefix in order.
func (m *Model) BucketNames(prefix string) []string {
	var res []string
	for k := range m.Buckets {
		if strings.HasPrefix(k, prefix) {
			res = append(res, k)
		}
	}
	sort.Strings(res)
	return res
}

func (m *Model) CreateBucket(b *msg.Bucket) Err {
	if b.Name == "" {
		return Other
	}
	if m.Buckets[b.Name] != nil {
		return Exists
	}
	m.Buckets[b.Name] = CopyBucket(b)
	return OK
}

func (m *Model) UpdateBucket(b *msg.Bucket) Err {
	if b.Name == "" {
		return Other
	}
	old := m.Buckets[b.Name]
	if old == nil {
		return NotFound
	}
	if b.UpdateTime <= old.UpdateTime {
		return Old
	}
	c := CopyBucket(b)
	c.CreateTime = old.CreateTime
	m.Buckets[b.Name] = c
	return OK
}

func (m *Model) RemoveBucket(name string) Err {
	delete(m.Buckets, name)
	return OK
}

// UpdateLocate changes one shard location of every version with the hash; every one gets newer.
func (m *Model) UpdateLocate(hash string, index int, locate string, ts int64) Err {
	vs := m.ByHash(hash)
	for _, v := range vs {
		if index < 0 || index >= len(v.Locate) {
			return Other
		}
	}
	for _, v := range vs {
		v.Locate[index] = locate
		if v.Ts < ts {
			v.Ts = ts
		} else {
			v.Ts++
		}
	}
	return OK
}

// EqVersion compares two versions (nil and empty locations are the same).
func EqVersion(a, b *msg.Version) bool {
	if a == nil || b == nil {
		return a == b
	}
	x, y := CopyVersion(a), CopyVersion(b)
	return reflect.DeepEqual(x, y)
}

// EqBucket compares two buckets.
func EqBucket(a, b *msg.Bucket) bool {
	if a == nil || b == nil {
		return a == b
	}
	return reflect.DeepEqual(CopyBucket(a), CopyBucket(b))
}

// EqMeta compares two objects' metadata without their summary.
func EqMeta(a, b *msg.Metadata) bool {
	if a == nil || b == nil {
		return a == b
	}
	return reflect.DeepEqual(CopyMeta(a), CopyMeta(b))
}

// SortVersions orders versions by unique id.
func SortVersions(vs []*msg.Version) []*msg.Version {
	res := append([]*msg.Version{}, vs...)
	sort.SliceStable(res, func(i, j int) bool {
		if res[i].UniqueId != res[j].UniqueId {
			return res[i].UniqueId < res[j].UniqueId
		}
		return res[i].Sequence < res[j].Sequence
	})
	return res
}

// EqVersionSet compares two sets of versions; "" if they are equal.
func EqVersionSet(got, want []*msg.Version) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d versions %s, want %d %s", len(got), Vs(got), len(want), Vs(want))
	}
	g, w := SortVersions(got), SortVersions(want)
	for i := range g {
		if !EqVersion(g[i], w[i]) {
			return fmt.Sprintf("version %+v, want %+v", *g[i], *w[i])
		}
	}
	return ""
}

// Vs prints versions shortly.
func Vs(vs []*msg.Version) string {
	s := make([]string, len(vs))
	for i, v := range vs {
		s[i] = fmt.Sprintf("%d(%s,%s)", v.Sequence, v.Hash, v.UniqueId)
	}
	return "[" + strings.Join(s, " ") + "]"
}

// Check compares everything the server answers with the model; "" if equal.
// extra names are looked up too.
func (e *Env) Check(m *Model, names ...string) string {
	seen := map[string]bool{}
	hashes := map[string]bool{}
	for k := range m.Objs {
		seen[k] = true
	}
	for _, n := range names {
		seen[n] = true
	}
	var ids []string
	for k := range seen {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	for _, id := range ids {
		o := m.Objs[id]
		meta, _, err := e.Meta.GetMetadata(id, -1, true)
		if o == nil {
			if ClassOf(err) != NotFound {
				return fmt.Sprintf("object %q: got %+v, %v, want not found", id, meta, err)
			}
			if v, err := e.Meta.GetVersion(id, 1); ClassOf(err) != NotFound {
				return fmt.Sprintf("version 1 of removed object %q: got %+v, %v, want not found", id, v, err)
			}
			continue
		}
		if err != nil {
			return fmt.Sprintf("object %q: %v, want %+v", id, err, o.Meta)
		}
		if !EqMeta(meta, &o.Meta) {
			return fmt.Sprintf("object %q: got %+v, want %+v", id, *CopyMeta(meta), o.Meta)
		}
		nums := o.Numbers()
		want := msg.Extra{Total: len(nums)}
		if len(nums) > 0 {
			want.FirstVersion, want.LastVersion = int(nums[0]), int(nums[len(nums)-1])
		}
		if meta.Extra == nil || *meta.Extra != want {
			return fmt.Sprintf("summary of object %q: got %+v, want %+v (live %v)", id, meta.Extra, want, nums)
		}
		for s := uint64(1); s <= o.Seq+1; s++ {
			v, err := e.Meta.GetVersion(id, int(s))
			if o.Vers[s] == nil {
				if ClassOf(err) != NotFound {
					return fmt.Sprintf("version %d of object %q: got %+v, %v, want not found", s, id, v, err)
				}
				continue
			}
			hashes[o.Vers[s].Hash] = true
			if err != nil || !EqVersion(v, o.Vers[s]) {
				return fmt.Sprintf("version %d of object %q: got %+v, %v, want %+v", s, id, v, err, *o.Vers[s])
			}
		}
		v, err := e.Meta.GetVersion(id, 0)
		if last := o.Last(); last == nil {
			if ClassOf(err) != NotFound {
				return fmt.Sprintf("latest version of object %q without versions: got %+v, %v", id, v, err)
			}
		} else if err != nil || !EqVersion(v, last) {
			return fmt.Sprintf("latest version of object %q: got %+v, %v, want %+v", id, v, err, *last)
		}
	}
	for h := range hashes {
		got, err := e.Meta.FindByHash(h)
		if err != nil {
			return fmt.Sprintf("lookup of hash %q: %v", h, err)
		}
		if d := EqVersionSet(got, m.ByHash(h)); d != "" {
			return fmt.Sprintf("lookup of hash %q: %s", h, d)
		}
	}
	all := m.IDs("")
	lst, total, err := e.Meta.ListMetadata("", len(all)+5)
	if len(all) == 0 {
		if (err != nil && ClassOf(err) != NotFound) || len(lst) > 0 {
			return fmt.Sprintf("list of no objects: %d, %v", len(lst), err)
		}
	} else {
		if err != nil || total != len(all) || len(lst) != len(all) {
			return fmt.Sprintf("list of objects: %d, total %d, %v, want %d", len(lst), total, err, len(all))
		}
		for i, id := range all {
			if !EqMeta(lst[i], &m.Objs[id].Meta) {
				return fmt.Sprintf("list of objects: entry %d is %+v, want %+v", i, *lst[i], m.Objs[id].Meta)
			}
		}
	}
	return e.CheckBuckets(m, names...)
}

// CheckBuckets compares the buckets.
func (e *Env) CheckBuckets(m *Model, names ...string) string {
	bs := m.BucketNames("")
	for _, n := range append(append([]string{}, bs...), names...) {
		b, err := e.Buckets.Get(n)
		bt, err2 := e.Buckets.GetBytes(n)
		want := m.Buckets[n]
		if want == nil {
			if ClassOf(err) != NotFound || ClassOf(err2) != NotFound {
				return fmt.Sprintf("bucket %q: got %+v, %v, %v, want not found", n, b, err, err2)
			}
			continue
		}
		if err != nil || !EqBucket(b, want) {
			return fmt.Sprintf("bucket %q: got %+v, %v, want %+v", n, b, err, *want)
		}
		var d msg.Bucket
		if err2 == nil {
			_, err2 = d.UnmarshalMsg(bt)
		}
		if err2 != nil || !EqBucket(&d, want) {
			return fmt.Sprintf("bytes of bucket %q: got %+v, %v, want %+v", n, d, err2, *want)
		}
	}
	bl, total, err := e.Buckets.List("", len(bs)+5)
	if err != nil || len(bl) != len(bs) || total != len(bs) {
		return fmt.Sprintf("list of buckets: %d, total %d, %v, want %d", len(bl), total, err, len(bs))
	}
	for i, n := range bs {
		if !EqBucket(bl[i], m.Buckets[n]) {
			return fmt.Sprintf("list of buckets: entry %d is %+v, want %+v", i, *bl[i], *m.Buckets[n])
		}
	}
	return ""
}

// Load writes the content of the model into an empty server.
func (e *Env) Load(m *Model) {
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	for _, id := range m.IDs("") {
		o := m.Objs[id]
		meta := o.Meta
		must(e.MetaRepo.AddMetadata(id, &meta))
		for s := uint64(1); s <= o.Seq; s++ {
			v := &msg.Version{Hash: "gone", UniqueId: fmt.Sprintf("gone-%s-%d", id, s)}
			if o.Vers[s] != nil {
				v = CopyVersion(o.Vers[s])
			}
			must(e.MetaRepo.AddVersion(id, v))
			if o.Vers[s] == nil {
				must(e.MetaRepo.RemoveVersion(id, s))
			}
		}
	}
	for _, n := range m.BucketNames("") {
		must(e.Bucket.Create(CopyBucket(m.Buckets[n])))
	}
}

// HasObject tells if the server holds exactly this object; "" if it does.
func (e *Env) HasObject(id string, o *Object) string {
	meta, _, err := e.Meta.GetMetadata(id, -1, true)
	if err != nil || !EqMeta(meta, &o.Meta) {
		return fmt.Sprintf("object %q: %+v, %v, want %+v", id, meta, err, o.Meta)
	}
	var want []*msg.Version
	for _, s := range o.Numbers() {
		want = append(want, o.Vers[s])
	}
	lst, total, err := e.Meta.ListVersions(id, 1, 10000)
	if err != nil || total != len(want) {
		return fmt.Sprintf("versions of %q: total %d, %v, want %d", id, total, err, len(want))
	}
	if d := EqVersionSet(lst, want); d != "" {
		return fmt.Sprintf("versions of %q: %s", id, d)
	}
	return ""
}

// HasBucket tells if the server holds exactly this bucket; "" if it does.
func (e *Env) HasBucket(b *msg.Bucket) string {
	got, err := e.Buckets.Get(b.Name)
	if err != nil || !EqBucket(got, b) {
		return fmt.Sprintf("bucket %q: %+v, %v, want %+v", b.Name, got, err, b)
	}
	return ""
}
