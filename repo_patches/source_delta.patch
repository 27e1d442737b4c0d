From 2734dc6719eae8a174199618b135306374d9f024 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 01/80] fix: recovered panics are logged, not raised again

---
 src/common/graceful/recover.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/graceful/recover.go b/src/common/graceful/recover.go
index 32cdec0..c2e435c 100644
--- a/src/common/graceful/recover.go
+++ b/src/common/graceful/recover.go
@@ -19,7 +19,7 @@ func Recover(fn ...func(msg string)) {
 }
 
 func PrintStacks(msg any) {
-	logger.Panicf("%s\n%s", msg, GetStacks())
+	logger.Errorf("%v\n%s", msg, GetStacks())
 }
 
 func GetStacks() string {
-- 
2.43.0


From 366245904684c54e44395f226e7b6a1417348ffe Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 02/80] fix: DoneGroup.WaitUntilError does not lose an error or
 panic of a task that just finished

---
 src/common/util/done_group.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/common/util/done_group.go b/src/common/util/done_group.go
index e9318c4..4ac9acb 100644
--- a/src/common/util/done_group.go
+++ b/src/common/util/done_group.go
@@ -49,6 +49,11 @@ func NewDoneGroup() DoneGroup {
 
 // Done equals to WaitGroup Done() but recover and call Error() on panic
 func (d *doneGroup) Done() {
+	// recover panic of calling goroutine. The error must be delivered before the group may be done
+	if err := recover(); err != nil {
+		graceful.PrintStacks(err)
+		d.Error(errors.New(fmt.Sprint(err)))
+	}
 	// recover panic from d.WaitGroup.Done()
 	defer func() {
 		if err := recover(); err != nil {
@@ -57,11 +62,6 @@ func (d *doneGroup) Done() {
 		}
 	}()
 	d.WaitGroup.Done()
-	// recover panic of calling goroutine
-	if err := recover(); err != nil {
-		graceful.PrintStacks(err)
-		d.Error(errors.New(fmt.Sprint(err)))
-	}
 }
 
 // Todo equals to wg.Add(1)
@@ -119,7 +119,13 @@ func (d *doneGroup) Close() {
 func (d *doneGroup) WaitUntilError() error {
 	select {
 	case <-d.WaitDone():
-		return nil
+		// both may be ready: an error delivered before the group was done must not be lost
+		select {
+		case e := <-d.WaitError():
+			return e
+		default:
+			return nil
+		}
 	case e := <-d.WaitError():
 		return e
 	}
@@ -141,13 +147,13 @@ func (ldg *limitDoneGroup) Todo() {
 }
 
 func (ldg *limitDoneGroup) Done() {
-	ldg.DoneGroup.Done()
-	<-ldg.limitChan
-	// recover panic of calling goroutine
+	// recover panic of calling goroutine. The error must be delivered before the group may be done
 	if err := recover(); err != nil {
 		graceful.PrintStacks(err)
 		ldg.Error(errors.New(fmt.Sprint(err)))
 	}
+	ldg.DoneGroup.Done()
+	<-ldg.limitChan
 }
 
 func (ldg *limitDoneGroup) Close() {
-- 
2.43.0


From 3eff8a795a3e63d6e5da6bf7f9055ec56e7535a1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 03/80] fix: datasize prints zero and refuses sizes beyond the
 limit in every unit

---
 src/common/datasize/datasize.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/common/datasize/datasize.go b/src/common/datasize/datasize.go
index f60bbe1..d6a9e2a 100644
--- a/src/common/datasize/datasize.go
+++ b/src/common/datasize/datasize.go
@@ -48,13 +48,14 @@ func (d DataSize) PetaByte() uint64 {
 }
 
 func (d DataSize) String() string {
+	if d == 0 {
+		return "0B"
+	}
 	i := int(math.Floor(math.Log(float64(d)) / math.Log(1024)))
-	exceed := 1.0
 	if i >= len(units) {
-		exceed = math.Pow(Step, float64(i-len(units)+1))
 		i = len(units) - 1
 	}
-	num := float64(d) / math.Pow(Step, float64(i)) * exceed
+	num := float64(d) / math.Pow(Step, float64(i))
 	return fmt.Sprintf("%.0f%s", num, units[i].name)
 }
 
@@ -104,7 +105,7 @@ func Parse(s string) (DataSize, error) {
 	}
 	if u, ok := unitNameMap[res[0][2]]; ok {
 		if IsExceedLimit(num, u) {
-			return 0, fmt.Errorf("data size '%dPB' exceed limit 1024PB", num)
+			return 0, fmt.Errorf("data size '%v' exceed limit 1024PB", s)
 		}
 		return DataSize(num) * u, nil
 	}
@@ -121,5 +122,5 @@ func MustParse(s string) DataSize {
 
 // IsExceedLimit Max size is 1023PB
 func IsExceedLimit(num int, unit DataSize) bool {
-	return unit == PB && num >= Step
+	return uint64(num) >= Step*uint64(PB/unit)
 }
-- 
2.43.0


From d74c64d020396a2bf713c7a8f6048022cc4d3197 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 04/80] fix: CombineEdges leaves its operands unchanged

---
 src/common/hashslot/hash_slot.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/common/hashslot/hash_slot.go b/src/common/hashslot/hash_slot.go
index 89be98a..c4772f3 100644
--- a/src/common/hashslot/hash_slot.go
+++ b/src/common/hashslot/hash_slot.go
@@ -181,9 +181,15 @@ func IsValidEdge(edge *Edge, provider IEdgeProvider) bool {
 // CombineEdges combine dest to src.
 func CombineEdges(src EdgeList, dest EdgeList) EdgeList {
 	newEdges := make(EdgeList, 0, len(src)+len(dest))
-	src = append(src, dest...)
-	sort.Sort(src)
-	for _, edge := range src {
+	// work on copies, the edges of src and dest stay as they are
+	all := make(EdgeList, 0, len(src)+len(dest))
+	for _, list := range []EdgeList{src, dest} {
+		for _, edge := range list {
+			all = append(all, &Edge{Start: edge.Start, End: edge.End, Value: edge.Value})
+		}
+	}
+	sort.Sort(all)
+	for _, edge := range all {
 		if len(newEdges) <= 0 {
 			newEdges = append(newEdges, edge)
 			continue
-- 
2.43.0


From 18964db3876cb78de1ab13ff806e0985d4539eff Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 05/80] fix: decoding a truncated msgp list returns an error

---
 src/common/util/util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/common/util/util.go b/src/common/util/util.go
index 50323fc..88175e2 100644
--- a/src/common/util/util.go
+++ b/src/common/util/util.go
@@ -239,12 +239,20 @@ func EncodeArrayMsgp[T msgp.Marshaler](arr []T) (res []byte, err error) {
 func DecodeArrayMsgp[T msgp.Unmarshaler](data []byte, constructor func() T) (arr []T, err error) {
 	for cur := 0; cur < len(data); {
 		item := constructor()
+		if len(data)-cur < binary.MaxVarintLen32 {
+			err = errors.New("decode array msgp: data is truncated")
+			return
+		}
 		size, n := binary.Uvarint(data[cur : cur+binary.MaxVarintLen32])
 		if n <= 0 {
 			err = errors.New("decode array msgp: format err")
 			return
 		}
 		cur += binary.MaxVarintLen32
+		if size > uint64(len(data)-cur) {
+			err = errors.New("decode array msgp: data is truncated")
+			return
+		}
 		if _, err = item.UnmarshalMsg(data[cur : cur+int(size)]); err != nil {
 			return
 		}
-- 
2.43.0


From 22d76f4ae787e9438527c56e264eb962e3e9df6a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 06/80] fix: MultiReader passes on the error of a broken reader
 instead of reading it forever

---
 src/common/system/disk/multi_reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/system/disk/multi_reader.go b/src/common/system/disk/multi_reader.go
index 3956cc1..49db457 100644
--- a/src/common/system/disk/multi_reader.go
+++ b/src/common/system/disk/multi_reader.go
@@ -40,6 +40,8 @@ func (mr *multiReader) Read(p []byte) (n int, err error) {
 			// after performing flatten (Issue 18232).
 			mr.readers[0] = eofReader{} // permit earlier GC
 			mr.readers = mr.readers[1:]
+		} else if err != nil {
+			return
 		}
 		if n >= bufSize {
 			if err == io.EOF && len(mr.readers) > 0 {
-- 
2.43.0


From af894c8c0769eed6412e25772cf5f222fd8e01f8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 07/80] fix: local performance store clears, filters and names
 records exactly

---
 src/common/performance/local_store.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/common/performance/local_store.go b/src/common/performance/local_store.go
index 942b818..0f3dfaf 100644
--- a/src/common/performance/local_store.go
+++ b/src/common/performance/local_store.go
@@ -131,12 +131,12 @@ func (ls *LocalStore) Get(kind, action string) ([]*Perform, error) {
 			var k, v []byte
 			cur := kndBuk.Cursor()
 			if action != "" {
-				k, v = cur.Seek(util.StrToBytes(action))
+				k, v = cur.Seek([]byte(action + "."))
 			} else {
 				k, v = cur.First()
 			}
 			for k != nil {
-				act := ls.keyPrefix(util.BytesToStr(k))
+				act := ls.keyPrefix(string(k))
 				if action != "" && act != action {
 					break
 				}
@@ -157,10 +157,11 @@ func (ls *LocalStore) Get(kind, action string) ([]*Perform, error) {
 			return actBuk.ForEach(func(k, v []byte) error {
 				if v == nil {
 					// if k is a nest bucket (when action is emtpy, action root bucket has nest buckets)
+					act := string(k)
 					actBuk.Bucket(k).ForEach(func(k, v []byte) error {
 						res = append(res, &Perform{
-							KindOf: ls.keyPrefix(util.BytesToStr(k)),
-							Action: util.BytesToStr(k),
+							KindOf: ls.keyPrefix(string(k)),
+							Action: act,
 							Cost:   time.Duration(util.BytesToInt(v)),
 						})
 						return nil
@@ -168,7 +169,7 @@ func (ls *LocalStore) Get(kind, action string) ([]*Perform, error) {
 					return nil
 				}
 				res = append(res, &Perform{
-					KindOf: ls.keyPrefix(util.BytesToStr(k)),
+					KindOf: ls.keyPrefix(string(k)),
 					Action: action,
 					Cost:   time.Duration(util.BytesToInt(v)),
 				})
@@ -264,11 +265,11 @@ func (ls *LocalStore) Clear(kind, action string) error {
 				return err
 			}
 			// delete kind bucket directly
-			if err = kindRoot.Delete(util.StrToBytes(kind)); err != nil {
+			if err = kindRoot.DeleteBucket([]byte(kind)); err != nil && err != bolt.ErrBucketNotFound {
 				return err
 			}
 			// delete from action buckets
-			return ls.delete(tx, actionBucketRoot, action, util.StrToBytes(kind))
+			return ls.delete(tx, actionBucketRoot, action, []byte(kind+"."))
 		})
 	} else if kind == "" && action != "" {
 		return ls.db.Update(func(tx *bolt.Tx) error {
@@ -281,15 +282,15 @@ func (ls *LocalStore) Clear(kind, action string) error {
 				return err
 			}
 			// delete action bucket directly
-			if err = actionRoot.Delete(util.StrToBytes(action)); err != nil {
+			if err = actionRoot.DeleteBucket([]byte(action)); err != nil && err != bolt.ErrBucketNotFound {
 				return err
 			}
 			// delete from kind buckets
-			return ls.delete(tx, kindBucketRoot, kind, util.StrToBytes(action))
+			return ls.delete(tx, kindBucketRoot, kind, []byte(action+"."))
 		})
 	} else if action != "" && kind != "" {
-		kindBt := util.StrToBytes(kind)
-		actionBt := util.StrToBytes(action)
+		kindBt := []byte(kind + ".")
+		actionBt := []byte(action + ".")
 		return ls.db.Update(func(tx *bolt.Tx) error {
 			err := ls.delete(tx, actionBucketRoot, action, kindBt)
 			if err != nil {
@@ -303,7 +304,7 @@ func (ls *LocalStore) Clear(kind, action string) error {
 			return err
 		}
 		// remove db file
-		path := ls.db.Path()
+		path := ls.path
 		if err := os.Remove(path); err != nil {
 			return err
 		}
-- 
2.43.0


From 838ade0bec4435e693ed2d8f9ae7d6c2a0746394 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 08/80] fix: service discovery keeps to its service, reads ids
 exactly and misses no change between fetch and watch

---
 src/common/registry/etcd_discovery.go | 120 +++++++++++++-------------
 src/common/registry/etcd_registry.go  |  32 +++++--
 src/common/registry/service_list.go   |  21 ++++-
 3 files changed, 100 insertions(+), 73 deletions(-)

diff --git a/src/common/registry/etcd_discovery.go b/src/common/registry/etcd_discovery.go
index 5c35a33..9efa974 100644
--- a/src/common/registry/etcd_discovery.go
+++ b/src/common/registry/etcd_discovery.go
@@ -43,76 +43,76 @@ func NewEtcdDiscovery(cli *clientv3.Client, cfg *Config) *EtcdDiscovery {
 func (e *EtcdDiscovery) initService(serv string) {
 	go func() {
 		defer graceful.Recover()
-		// fetch kvs
-		prefix := cst.EtcdPrefix.FmtRegistry(e.group, serv)
-		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
-		defer cancel()
-		res, err := e.cli.Get(ctx, prefix, clientv3.WithPrefix())
-		if err != nil {
-			registryLog.Warnf("discovery init service %s error: %s", prefix, err)
-			return
-		}
-		// wrap kvs
-		mp := make(map[string]string)
-		for _, kv := range res.Kvs {
-			mp[util.BytesToStr(kv.Key)] = util.BytesToStr(kv.Value)
+		// the separator keeps services out whose name only starts with serv
+		prefix := cst.EtcdPrefix.FmtRegistry(e.group, serv) + "/"
+		for {
+			if rev, err := e.fetchService(serv, prefix); err != nil {
+				registryLog.Warnf("discovery init service %s error: %s", prefix, err)
+			} else {
+				// watch all changes since fetched
+				e.watchService(serv, prefix, rev+1)
+			}
+			// sleep 2 sec before retry, break if canceled by context
+			select {
+			case <-e.context.Done():
+				return
+			case <-time.After(2 * time.Second):
+			}
 		}
-		// init serv
-		e.services[serv].combine(mp)
-		// start watch change
-		e.asyncWatch(serv, prefix)
 	}()
 }
 
-func (e *EtcdDiscovery) asyncWatch(serv, prefix string) {
-	go func() {
-		defer graceful.Recover()
-		for {
-			var success bool
-			ch := e.cli.Watch(e.context, prefix, clientv3.WithPrefix())
-			for res := range ch {
-				if res.Canceled {
-					registryLog.Errorf("dicovery for %s abort: %s", serv, res.Err())
-					success = false
-					break
-				}
-				for _, event := range res.Events {
-					// Key will be like ${group}/registry/${serv}/${id}_${slave/master}
-					key := util.BytesToStr(event.Kv.Key)
-					addr := util.BytesToStr(event.Kv.Value)
-					switch event.Type {
-					case mvccpb.PUT:
-						registryLog.Tracef("%s:%s added", serv, addr)
-						e.addService(serv, addr, key)
-					case mvccpb.DELETE:
-						registryLog.Tracef("%s:%s removed", serv, key)
-						e.removeService(serv, key)
-					}
-				}
-			}
-			// break if canceled by context
-			if success {
-				break
+func (e *EtcdDiscovery) fetchService(serv, prefix string) (int64, error) {
+	ctx, cancel := context.WithTimeout(e.context, 5*time.Second)
+	defer cancel()
+	res, err := e.cli.Get(ctx, prefix, clientv3.WithPrefix())
+	if err != nil {
+		return 0, err
+	}
+	// wrap kvs
+	mp := make(map[string]string)
+	for _, kv := range res.Kvs {
+		mp[util.BytesToStr(kv.Key)] = util.BytesToStr(kv.Value)
+	}
+	e.services[serv].replace(prefix, mp)
+	return res.Header.Revision, nil
+}
+
+func (e *EtcdDiscovery) watchService(serv, prefix string, rev int64) {
+	ctx, cancel := context.WithCancel(e.context)
+	defer cancel()
+	ch := e.cli.Watch(ctx, prefix, clientv3.WithPrefix(), clientv3.WithRev(rev))
+	for res := range ch {
+		if res.Canceled {
+			registryLog.Errorf("dicovery for %s abort: %s", serv, res.Err())
+			return
+		}
+		for _, event := range res.Events {
+			// Key will be like ${group}/registry/${serv}/${id}_${slave/master}
+			key := util.BytesToStr(event.Kv.Key)
+			addr := util.BytesToStr(event.Kv.Value)
+			switch event.Type {
+			case mvccpb.PUT:
+				registryLog.Tracef("%s:%s added", serv, addr)
+				e.addService(serv, addr, key)
+			case mvccpb.DELETE:
+				registryLog.Tracef("%s:%s removed", serv, key)
+				e.removeService(serv, key)
 			}
-			// sleep 2 sec before retry
-			time.Sleep(2 * time.Second)
 		}
-	}()
+	}
 }
 
 func (e *EtcdDiscovery) GetServiceMapping(name string) map[string]string {
 	res := make(map[string]string)
 	if sl, ok := e.services[name]; ok {
 		for k, addr := range sl.copy() {
-			idx1 := strings.LastIndexByte(k, '/')
-			if idx1 < 0 {
+			idx := strings.LastIndexByte(k, '/')
+			if idx < 0 {
 				continue
 			}
-			idx2 := strings.LastIndexByte(k, '_')
-			if idx2 < 0 {
-				idx2 = len(k)
-			}
-			res[k[idx1+1:idx2]] = addr
+			sid, _ := cutRole(k[idx+1:])
+			res[sid] = addr
 		}
 	}
 	return res
@@ -143,18 +143,18 @@ func (e *EtcdDiscovery) GetService(name string, id string) (string, bool) {
 
 func (e *EtcdDiscovery) GetServiceMappingWith(name string, master bool) map[string]string {
 	if sl, ok := e.services[name]; ok {
-		res := make(map[string]string, len(sl.data))
+		res := make(map[string]string, sl.Len())
 		for k, addr := range sl.copy() {
 			idx := strings.LastIndexByte(k, '/')
 			if idx < 0 {
 				continue
 			}
-			sid, role, contains := strings.Cut(k[idx+1:], "_")
+			sid, role := cutRole(k[idx+1:])
 			if master {
-				if !contains || role == "master" {
+				if role == "" || role == roleMaster {
 					res[sid] = addr
 				}
-			} else if role == "slave" {
+			} else if role == roleSlave {
 				res[sid] = addr
 			}
 		}
diff --git a/src/common/registry/etcd_registry.go b/src/common/registry/etcd_registry.go
index 3161a17..cde1787 100644
--- a/src/common/registry/etcd_registry.go
+++ b/src/common/registry/etcd_registry.go
@@ -7,6 +7,8 @@ import (
 	"common/util"
 	"context"
 	"fmt"
+	"strings"
+
 	clientv3 "go.etcd.io/etcd/client/v3"
 )
 
@@ -36,6 +38,21 @@ func NewEtcdRegistry(kv *clientv3.Client, cfg *Config) *EtcdRegistry {
 	return reg
 }
 
+const (
+	roleMaster = "master"
+	roleSlave  = "slave"
+)
+
+// cutRole splits the last part of a registered key into server id and role. role is empty if it has none
+func cutRole(s string) (sid, role string) {
+	for _, r := range []string{roleMaster, roleSlave} {
+		if id := strings.TrimSuffix(s, "_"+r); id != s {
+			return id, r
+		}
+	}
+	return s, ""
+}
+
 func (e *EtcdRegistry) Key() string {
 	return EtcdPrefix.FmtRegistry(e.cfg.Group, e.name)
 }
@@ -51,28 +68,25 @@ func (e *EtcdRegistry) AsSlave() *EtcdRegistry {
 }
 
 func (e *EtcdRegistry) GetServiceMapping(name string) map[string]string {
-	resp, err := e.cli.Get(context.Background(), EtcdPrefix.FmtRegistry(e.cfg.Group, name), clientv3.WithPrefix())
+	resp, err := e.cli.Get(context.Background(), EtcdPrefix.FmtRegistry(e.cfg.Group, name)+"/", clientv3.WithPrefix())
 	if err != nil {
 		registryLog.Errorf("get services: %s", err)
 		return map[string]string{}
 	}
 	res := make(map[string]string, len(resp.Kvs))
 	for _, kv := range resp.Kvs {
-		idx1 := bytes.LastIndexByte(kv.Key, '/')
-		if idx1 < 0 {
+		idx := bytes.LastIndexByte(kv.Key, '/')
+		if idx < 0 {
 			continue
 		}
-		idx2 := bytes.LastIndexByte(kv.Key, '_')
-		if idx2 < 0 {
-			idx2 = len(kv.Key)
-		}
-		res[util.BytesToStr(kv.Key[idx1+1:idx2])] = util.BytesToStr(kv.Value)
+		sid, _ := cutRole(util.BytesToStr(kv.Key[idx+1:]))
+		res[sid] = util.BytesToStr(kv.Value)
 	}
 	return res
 }
 
 func (e *EtcdRegistry) GetServices(name string) []string {
-	resp, err := e.cli.Get(context.Background(), EtcdPrefix.FmtRegistry(e.cfg.Group, name), clientv3.WithPrefix())
+	resp, err := e.cli.Get(context.Background(), EtcdPrefix.FmtRegistry(e.cfg.Group, name)+"/", clientv3.WithPrefix())
 	if err != nil {
 		registryLog.Infof("get services: %s", err)
 		return []string{}
diff --git a/src/common/registry/service_list.go b/src/common/registry/service_list.go
index e6f9e70..4ee0240 100644
--- a/src/common/registry/service_list.go
+++ b/src/common/registry/service_list.go
@@ -1,6 +1,9 @@
 package registry
 
-import "sync"
+import (
+	"strings"
+	"sync"
+)
 
 type serviceList struct {
 	data map[string]string // key=address value=registered key
@@ -15,7 +18,15 @@ func newServiceListOf(mp map[string]string) *serviceList {
 	return &serviceList{mp, &sync.RWMutex{}}
 }
 
-func (s *serviceList) combine(mp map[string]string) {
+// replace sets mp as all of the entries whose key has the prefix
+func (s *serviceList) replace(prefix string, mp map[string]string) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	for k := range s.data {
+		if _, ok := mp[k]; !ok && strings.HasPrefix(k, prefix) {
+			delete(s.data, k)
+		}
+	}
 	for k, v := range mp {
 		s.data[k] = v
 	}
@@ -34,9 +45,9 @@ func (s *serviceList) remove(registerKey string) {
 }
 
 func (s *serviceList) list() []string {
-	ls := make([]string, 0, len(s.data))
 	s.lock.RLock()
 	defer s.lock.RUnlock()
+	ls := make([]string, 0, len(s.data))
 	for _, v := range s.data {
 		ls = append(ls, v)
 	}
@@ -45,9 +56,9 @@ func (s *serviceList) list() []string {
 
 // copy returns a map of value=address key=registered key
 func (s *serviceList) copy() map[string]string {
-	ls := make(map[string]string, len(s.data))
 	s.lock.RLock()
 	defer s.lock.RUnlock()
+	ls := make(map[string]string, len(s.data))
 	for k, v := range s.data {
 		ls[k] = v
 	}
@@ -55,5 +66,7 @@ func (s *serviceList) copy() map[string]string {
 }
 
 func (s *serviceList) Len() int {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
 	return len(s.data)
 }
-- 
2.43.0


From 998bf1eb372e25c0d06662199320ea64fa9c4f3a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 09/80] fix: removed versions and objects leave no hash or
 unique-id index entries and never reset the version sequence

---
 .../internal/usecase/logic/metadata_logic.go  | 52 ++++++++++++++++++-
 .../internal/usecase/repo/batch_meta_repo.go  | 10 +---
 .../internal/usecase/repo/metadata_repo.go    |  9 +---
 3 files changed, 52 insertions(+), 19 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index bdeec02..166d10e 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -65,6 +65,9 @@ func RemoveMeta(name string) TxFunc {
 		if err := root.Delete(key); err != nil {
 			return err
 		}
+		if err := removeVersionIndexes(tx, name); err != nil {
+			return err
+		}
 		err := RemoveVersionBucket(tx, name)
 		// ignore err of bucket not found
 		if err != nil && !errors.Is(err, bolt.ErrBucketNotFound) {
@@ -159,7 +162,7 @@ func AddVerWithSequence(name string, data *msg.Version) TxFunc {
 				return err
 			}
 			keyStr := util.BytesToStr(key)
-			if err = NewUniqueIdIndex().AddIndex(data.Hash, keyStr)(tx); err != nil {
+			if err = NewUniqueIdIndex().AddIndex(data.UniqueId, keyStr)(tx); err != nil {
 				return err
 			}
 			return NewHashIndexLogic().AddIndex(data.Hash, keyStr)(tx)
@@ -212,13 +215,58 @@ func RemoveVer(name string, ver uint64) TxFunc {
 		if err := NewHashIndexLogic().RemoveIndex(data.Hash, keyStr)(tx); err != nil {
 			return fmt.Errorf("remove hash-index err: %w", err)
 		}
-		if err := NewUniqueIdIndex().RemoveIndex(data.Hash, keyStr)(tx); err != nil {
+		if err := NewUniqueIdIndex().RemoveIndex(data.UniqueId, keyStr)(tx); err != nil {
 			return fmt.Errorf("remove uniqueId-index err: %w", err)
 		}
 		return b.Delete(key)
 	}
 }
 
+// RemoveAllVer removes all versions of metadata but keeps its version sequence
+func RemoveAllVer(name string) TxFunc {
+	return func(tx *bolt.Tx) error {
+		b := GetVersionBucket(tx, name)
+		if b == nil {
+			return ErrNotFound
+		}
+		seq := b.Sequence()
+		if err := removeVersionIndexes(tx, name); err != nil {
+			return err
+		}
+		// delete bucket
+		if err := RemoveVersionBucket(tx, name); err != nil {
+			return err
+		}
+		// create an empty bucket
+		if err := CreateVersionBucket(tx, name); err != nil {
+			return err
+		}
+		return GetVersionBucket(tx, name).SetSequence(seq)
+	}
+}
+
+// removeVersionIndexes removes index entries of all versions of metadata
+func removeVersionIndexes(tx *bolt.Tx, name string) error {
+	b := GetVersionBucket(tx, name)
+	if b == nil {
+		return nil
+	}
+	return b.ForEach(func(k, v []byte) error {
+		var data msg.Version
+		if err := util.DecodeMsgp(&data, v); err != nil {
+			return err
+		}
+		keyStr := string(k)
+		if err := NewHashIndexLogic().RemoveIndex(data.Hash, keyStr)(tx); err != nil {
+			return fmt.Errorf("remove hash-index err: %w", err)
+		}
+		if err := NewUniqueIdIndex().RemoveIndex(data.UniqueId, keyStr)(tx); err != nil {
+			return fmt.Errorf("remove uniqueId-index err: %w", err)
+		}
+		return nil
+	})
+}
+
 func UpdateVer(id string, data *msg.Version) TxFunc {
 	return func(tx *bolt.Tx) error {
 		if b := GetVersionBucket(tx, id); b != nil {
diff --git a/src/metaserver/internal/usecase/repo/batch_meta_repo.go b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
index 6fc235b..d2d24e2 100644
--- a/src/metaserver/internal/usecase/repo/batch_meta_repo.go
+++ b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
@@ -2,7 +2,6 @@ package repo
 
 import (
 	"common/proto/msg"
-	bolt "go.etcd.io/bbolt"
 	"metaserver/internal/usecase"
 	"metaserver/internal/usecase/db"
 	"metaserver/internal/usecase/logic"
@@ -65,12 +64,5 @@ func (br *BatchMetaRepo) AddVersionFromRaft(id string, data *msg.Version) error
 }
 
 func (br *BatchMetaRepo) RemoveAllVersion(id string) error {
-	return br.Storage.Batch(func(tx *bolt.Tx) error {
-		// delete bucket
-		if err := logic.RemoveVersionBucket(tx, id); err != nil {
-			return err
-		}
-		// create an empty bucket
-		return logic.CreateVersionBucket(tx, id)
-	})
+	return br.Storage.Batch(logic.RemoveAllVer(id))
 }
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 2a23d7d..e1f165b 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -160,14 +160,7 @@ func (m *MetadataRepo) RemoveVersion(name string, ver uint64) error {
 
 func (m *MetadataRepo) RemoveAllVersion(name string) error {
 	last := m.GetLastVersionNumber(name)
-	if err := m.MainDB.Update(func(tx *bolt.Tx) error {
-		// delete bucket
-		if err := logic.RemoveVersionBucket(tx, name); err != nil {
-			return err
-		}
-		// create an empty bucket
-		return logic.CreateVersionBucket(tx, name)
-	}); err != nil {
+	if err := m.MainDB.Update(logic.RemoveAllVer(name)); err != nil {
 		return err
 	}
 	go func() {
-- 
2.43.0


From 1628ef5fe1ef0872d8e4a586929464636479c347 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:52:22 +0000
Subject: [PATCH 10/80] fix: latest, first and listed versions follow the
 version number, not the byte order of keys

---
 .../internal/usecase/logic/metadata_logic.go  | 31 ++++++++-----
 .../internal/usecase/repo/metadata_repo.go    | 45 +++++++------------
 .../usecase/service/metadata_service.go       |  2 +-
 3 files changed, 36 insertions(+), 42 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index 166d10e..c2757be 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	. "metaserver/internal/usecase"
+	"sort"
 
 	"github.com/google/uuid"
 	bolt "go.etcd.io/bbolt"
@@ -111,22 +112,30 @@ func GetExtra(id string, extra *msg.Extra) TxFunc {
 		if b == nil {
 			return ErrNotFound
 		}
-		extra.Total = b.Stats().KeyN
-		cur := b.Cursor()
-		// first key
-		k, _ := cur.First()
-		if idx := bytes.LastIndexByte(k, Sep[0]); idx > 0 {
-			extra.FirstVersion = util.ToInt(util.BytesToStr(k[idx+1:]))
-		}
-		// last key
-		k, _ = cur.Last()
-		if idx := bytes.LastIndexByte(k, Sep[0]); idx > 0 {
-			extra.LastVersion = util.ToInt(util.BytesToStr(k[idx+1:]))
+		numbers := VersionNumbers(b)
+		extra.Total = len(numbers)
+		if extra.Total > 0 {
+			extra.FirstVersion = int(numbers[0])
+			extra.LastVersion = int(numbers[extra.Total-1])
 		}
 		return nil
 	}
 }
 
+// VersionNumbers get numbers of all versions in increasing order.
+// Keys are sorted by bytes, so that "10" is before "9" in bucket
+func VersionNumbers(b *bolt.Bucket) []uint64 {
+	var numbers []uint64
+	cur := b.Cursor()
+	for k, _ := cur.First(); k != nil; k, _ = cur.Next() {
+		if idx := bytes.LastIndexByte(k, Sep[0]); idx >= 0 {
+			numbers = append(numbers, util.ToUint64(string(k[idx+1:])))
+		}
+	}
+	sort.Slice(numbers, func(i, j int) bool { return numbers[i] < numbers[j] })
+	return numbers
+}
+
 func ExistsByUniqueId(tx *bolt.Tx, uniqueId string) error {
 	var byUniqueId []string
 	if err := NewUniqueIdIndex().GetIndex(uniqueId, &byUniqueId)(tx); err != nil {
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index e1f165b..c020a8c 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -8,7 +8,6 @@ import (
 	"common/proto/msg"
 	"common/util"
 	"errors"
-	"fmt"
 	"io"
 	"metaserver/internal/usecase"
 	"metaserver/internal/usecase/db"
@@ -177,15 +176,11 @@ func (m *MetadataRepo) GetFirstVersionNumber(name string) uint64 {
 	var fst uint64 = 1
 	if err := m.MainDB.View(func(tx *bolt.Tx) error {
 		if buk := logic.GetVersionBucket(tx, name); buk != nil {
-			k, v := buk.Cursor().First()
-			if k == nil || v == nil {
+			numbers := logic.VersionNumbers(buk)
+			if len(numbers) == 0 {
 				return usecase.ErrNotFound
 			}
-			idx := bytes.LastIndexByte(k, logic.Sep[0])
-			if idx < 0 {
-				return usecase.ErrNotFound
-			}
-			fst = util.ToUint64(util.BytesToStr(k[idx+1:]))
+			fst = numbers[0]
 		}
 		return nil
 	}); err != nil {
@@ -198,15 +193,11 @@ func (m *MetadataRepo) GetLastVersionNumber(name string) uint64 {
 	var max uint64 = 1
 	if err := m.MainDB.View(func(tx *bolt.Tx) error {
 		if buk := logic.GetVersionBucket(tx, name); buk != nil {
-			k, v := buk.Cursor().Last()
-			if k == nil || v == nil {
+			numbers := logic.VersionNumbers(buk)
+			if len(numbers) == 0 {
 				return usecase.ErrNotFound
 			}
-			idx := bytes.LastIndexByte(k, logic.Sep[0])
-			if idx < 0 {
-				return usecase.ErrNotFound
-			}
-			max = util.ToUint64(util.BytesToStr(k[idx+1:]))
+			max = numbers[len(numbers)-1]
 		}
 		return nil
 	}); err != nil {
@@ -230,32 +221,26 @@ func (m *MetadataRepo) GetVersion(name string, ver uint64) (*msg.Version, error)
 	return data, nil
 }
 
+// ListVersions list versions from the start-th to the end-th in order of version number
 func (m *MetadataRepo) ListVersions(name string, start int, end int) (lst []*msg.Version, total int, err error) {
-	size := end - start + 1
-	lst, _, err = m.Cache.ListVersions(name, start, end)
-	if util.InstanceOf[PartlyMatchedErr](err) {
-		start = err.(PartlyMatchedErr).Last()
-	} else if err != nil {
-		return
-	}
 	err = m.MainDB.View(func(tx *bolt.Tx) error {
 		buk := logic.GetVersionBucket(tx, name)
 		if buk == nil {
 			return usecase.ErrNotFound
 		}
-		c := buk.Cursor()
-
-		min := util.StrToBytes(fmt.Sprint(name, logic.Sep, start))
-
-		for k, v := c.Seek(min); k != nil && len(lst) < size; k, v = c.Next() {
+		numbers := logic.VersionNumbers(buk)
+		// record total
+		total = len(numbers)
+		if start < 1 {
+			start = 1
+		}
+		for i := start; i <= end && i <= total; i++ {
 			data := &msg.Version{}
-			if err := util.DecodeMsgp(data, v); err != nil {
+			if err := logic.GetVer(name, numbers[i-1], data)(tx); err != nil {
 				return err
 			}
 			lst = append(lst, data)
 		}
-		// record total
-		total = buk.Stats().KeyN
 		return nil
 	})
 	return
diff --git a/src/metaserver/internal/usecase/service/metadata_service.go b/src/metaserver/internal/usecase/service/metadata_service.go
index 3435f96..9691405 100644
--- a/src/metaserver/internal/usecase/service/metadata_service.go
+++ b/src/metaserver/internal/usecase/service/metadata_service.go
@@ -172,7 +172,7 @@ func (m *MetadataService) ListVersions(name string, page int, size int) ([]*msg.
 	}
 	// start at 1
 	start := (page-1)*size + 1
-	return m.repo.ListVersions(name, start, start+size)
+	return m.repo.ListVersions(name, start, start+size-1)
 }
 
 func (m *MetadataService) ListMetadata(prefix string, size int) ([]*msg.Metadata, int, error) {
-- 
2.43.0


From 4cc6bc6efd914a8567e657017620d6ce0c1dea10 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 11/80] fix: index keys, bucket bytes and bucket keys are
 copied before the read transaction ends

---
 src/metaserver/internal/usecase/logic/bucket_logic.go       | 6 ++++--
 src/metaserver/internal/usecase/logic/hash_index_logic.go   | 2 +-
 .../internal/usecase/logic/unique_id_index_logic.go         | 2 +-
 src/metaserver/internal/usecase/service/hashslot_service.go | 2 +-
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/bucket_logic.go b/src/metaserver/internal/usecase/logic/bucket_logic.go
index 2f14491..ab43bc5 100644
--- a/src/metaserver/internal/usecase/logic/bucket_logic.go
+++ b/src/metaserver/internal/usecase/logic/bucket_logic.go
@@ -52,10 +52,12 @@ func (b *BucketCrud) GetBytes(name string, bt *[]byte) usecase.TxFunc {
 		if err != nil {
 			return err
 		}
-		*bt = root.Get(util.StrToBytes(name))
-		if *bt == nil {
+		v := root.Get(util.StrToBytes(name))
+		if v == nil {
 			return usecase.ErrNotFound
 		}
+		// copy values from the mmap pointer
+		*bt = append([]byte{}, v...)
 		return nil
 	}
 }
diff --git a/src/metaserver/internal/usecase/logic/hash_index_logic.go b/src/metaserver/internal/usecase/logic/hash_index_logic.go
index 1e3bd31..71cc23f 100644
--- a/src/metaserver/internal/usecase/logic/hash_index_logic.go
+++ b/src/metaserver/internal/usecase/logic/hash_index_logic.go
@@ -50,7 +50,7 @@ func (HashIndexLogic) GetIndex(hash string, res *[]string) usecase.TxFunc {
 			return nil
 		}
 		err := hashBuk.ForEach(func(k, v []byte) error {
-			*res = append(*res, util.BytesToStr(k))
+			*res = append(*res, string(k)) // copy from mmap
 			return nil
 		})
 		return err
diff --git a/src/metaserver/internal/usecase/logic/unique_id_index_logic.go b/src/metaserver/internal/usecase/logic/unique_id_index_logic.go
index 726a54c..668e8bc 100644
--- a/src/metaserver/internal/usecase/logic/unique_id_index_logic.go
+++ b/src/metaserver/internal/usecase/logic/unique_id_index_logic.go
@@ -50,7 +50,7 @@ func (UniqueIdIndex) GetIndex(uniqueId string, res *[]string) usecase.TxFunc {
 			return nil
 		}
 		err := uniqueIdBuk.ForEach(func(k, v []byte) error {
-			*res = append(*res, util.BytesToStr(k))
+			*res = append(*res, string(k)) // copy from mmap
 			return nil
 		})
 		return err
diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index 9e39cd9..3ed0091 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -347,7 +347,7 @@ func (h *HashSlotService) migrateBuckets(stream pb.HashSlot_StreamingReceiveClie
 		if !hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(k), edges) {
 			return nil
 		}
-		migKeys = append(migKeys, k)
+		migKeys = append(migKeys, append([]byte{}, k...)) // copy from mmap
 		return nil
 	})
 	total := len(migKeys)
-- 
2.43.0


From 98d8b569743bdb01a2d61fb6ee7e32941fcd68a7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:52:50 +0000
Subject: [PATCH 12/80] fix: a new shard location changes each version of the
 hash by itself and is not refused as old data

---
 src/metaserver/internal/usecase/errors.go         |  1 +
 src/metaserver/internal/usecase/interfaces.go     |  2 +-
 .../internal/usecase/repo/metadata_repo.go        | 15 +++++++++++----
 .../internal/usecase/service/metadata_service.go  |  2 +-
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/metaserver/internal/usecase/errors.go b/src/metaserver/internal/usecase/errors.go
index 197a512..2be043f 100644
--- a/src/metaserver/internal/usecase/errors.go
+++ b/src/metaserver/internal/usecase/errors.go
@@ -12,6 +12,7 @@ var (
 	ErrOldData        = response.NewError(400, "data expired")
 	ErrExists         = response.NewError(400, "data exists")
 	ErrNilData        = response.NewError(400, "null value")
+	ErrLocateIndex    = response.NewError(400, "locate index out of range")
 )
 
 func IsNotFound(err error) bool {
diff --git a/src/metaserver/internal/usecase/interfaces.go b/src/metaserver/internal/usecase/interfaces.go
index 1922298..c558176 100644
--- a/src/metaserver/internal/usecase/interfaces.go
+++ b/src/metaserver/internal/usecase/interfaces.go
@@ -84,7 +84,7 @@ type (
 	IMetadataRepo interface {
 		WritableRepo
 		ReadableRepo
-		UpdateLocateByHash(hash string, index int, value string) error
+		UpdateLocateByHash(hash string, index int, value string, ts int64) error
 		GetLastVersionNumber(id string) uint64
 		GetFirstVersionNumber(id string) uint64
 		ForeachVersionBytes(string, func([]byte) bool)
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index c020a8c..241a7e6 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -14,7 +14,6 @@ import (
 	"metaserver/internal/usecase/logic"
 	"os"
 	"strings"
-	"time"
 
 	bolt "go.etcd.io/bbolt"
 )
@@ -365,20 +364,28 @@ func (m *MetadataRepo) ApplyIndex(i uint64) error {
 	})
 }
 
-func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string) error {
+func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string, ts int64) error {
 	return m.MainDB.Update(func(tx *bolt.Tx) error {
 		var keys []string
 		if err := logic.NewHashIndexLogic().GetIndex(hash, &keys)(tx); err != nil {
 			return err
 		}
-		var v msg.Version
 		for _, key := range keys {
+			var v msg.Version
 			idx := strings.LastIndexByte(key, '.')
 			metaId, sequence := key[:idx], util.ToUint64(key[idx+1:])
 			if err := logic.GetVer(metaId, sequence, &v)(tx); err != nil {
 				return err
 			}
-			v.Ts = time.Now().UnixMilli()
+			if index < 0 || index >= len(v.Locate) {
+				return usecase.ErrLocateIndex
+			}
+			// always newer than the current one, or it will be refused as old data
+			if v.Ts < ts {
+				v.Ts = ts
+			} else {
+				v.Ts++
+			}
 			v.Locate[index] = value
 			if err := logic.UpdateVer(metaId, &v)(tx); err != nil {
 				return err
diff --git a/src/metaserver/internal/usecase/service/metadata_service.go b/src/metaserver/internal/usecase/service/metadata_service.go
index 9691405..d09a600 100644
--- a/src/metaserver/internal/usecase/service/metadata_service.go
+++ b/src/metaserver/internal/usecase/service/metadata_service.go
@@ -229,5 +229,5 @@ func (m *MetadataService) FindByHash(hash string) (res []*msg.Version, err error
 }
 
 func (m *MetadataService) UpdateLocates(hash string, index int, locate string) error {
-	return m.repo.UpdateLocateByHash(hash, index, locate)
+	return m.repo.UpdateLocateByHash(hash, index, locate, time.Now().UnixMilli())
 }
-- 
2.43.0


From 9f112c650f714e5e15b07804eefb0a53a53f6e28 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 13/80] fix: new shard locations are replicated like every
 other update

---
 src/metaserver/internal/entity/raft_data.go        |  1 +
 .../internal/usecase/raftimpl/fsm_impl.go          | 14 ++++++++++++++
 .../internal/usecase/service/metadata_service.go   | 13 ++++++++++++-
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/metaserver/internal/entity/raft_data.go b/src/metaserver/internal/entity/raft_data.go
index f5967ff..c44375d 100644
--- a/src/metaserver/internal/entity/raft_data.go
+++ b/src/metaserver/internal/entity/raft_data.go
@@ -19,6 +19,7 @@ const (
 	DestVersionAll
 	DestMetadata
 	DestBucket
+	DestLocate
 )
 
 type RaftData struct {
diff --git a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
index 0b11cd0..118b33a 100644
--- a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
@@ -94,6 +94,16 @@ func (f *FSMImpl) applyVersionAll(data *entity.RaftData) *FSMResponse {
 	}
 }
 
+func (f *FSMImpl) applyLocate(data *entity.RaftData) *FSMResponse {
+	if data.Type != entity.LogUpdate {
+		return FSMResult(ErrUnknownRaftLog)
+	}
+	if data.Version == nil || len(data.Version.Locate) == 0 {
+		return FSMResult(ErrNilData)
+	}
+	return FSMResult(f.metaRepo.UpdateLocateByHash(data.Name, int(data.Sequence), data.Version.Locate[0], data.Version.Ts))
+}
+
 func (f *FSMImpl) Apply(lg *raft.Log) (r any) {
 	if lg == nil || len(lg.Data) == 0 {
 		return FSMResult(ErrNilData)
@@ -116,6 +126,8 @@ func (f *FSMImpl) Apply(lg *raft.Log) (r any) {
 		return f.applyVersionAll(&data)
 	case entity.DestBucket:
 		return f.applyBucket(&data)
+	case entity.DestLocate:
+		return f.applyLocate(&data)
 	}
 	return ErrUnknownRaftLog
 }
@@ -147,6 +159,8 @@ func (f *FSMImpl) ApplyBatch(lgs []*raft.Log) []any {
 			res[i] = f.applyVersionAll(&data)
 		case entity.DestBucket:
 			res[i] = f.applyBucket(&data)
+		case entity.DestLocate:
+			res[i] = f.applyLocate(&data)
 		default:
 			res[i] = ErrUnknownRaftLog
 		}
diff --git a/src/metaserver/internal/usecase/service/metadata_service.go b/src/metaserver/internal/usecase/service/metadata_service.go
index d09a600..2af69ed 100644
--- a/src/metaserver/internal/usecase/service/metadata_service.go
+++ b/src/metaserver/internal/usecase/service/metadata_service.go
@@ -229,5 +229,16 @@ func (m *MetadataService) FindByHash(hash string) (res []*msg.Version, err error
 }
 
 func (m *MetadataService) UpdateLocates(hash string, index int, locate string) error {
-	return m.repo.UpdateLocateByHash(hash, index, locate, time.Now().UnixMilli())
+	ts := time.Now().UnixMilli()
+	if ok, _, err := m.ApplyRaft(&entity.RaftData{
+		Type:     entity.LogUpdate,
+		Dest:     entity.DestLocate,
+		Name:     hash,
+		Sequence: uint64(index),
+		Version:  &msg.Version{Ts: ts, Locate: []string{locate}},
+	}); ok {
+		return err
+	}
+
+	return m.repo.UpdateLocateByHash(hash, index, locate, ts)
 }
-- 
2.43.0


From c40720b4202eb32d8a04db460b6e411a3ef18c7e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 14/80] fix: a replica that is not the leader, or a server in
 migration, refuses version updates

---
 src/metaserver/internal/controller/grpc/middleware.go  | 1 +
 src/metaserver/internal/usecase/raftimpl/raft_apply.go | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/metaserver/internal/controller/grpc/middleware.go b/src/metaserver/internal/controller/grpc/middleware.go
index ffb3d33..9e38983 100644
--- a/src/metaserver/internal/controller/grpc/middleware.go
+++ b/src/metaserver/internal/controller/grpc/middleware.go
@@ -36,6 +36,7 @@ var checkWritableMethods = set.OfString([]string{
 	"/proto.MetadataApi/SaveMetadata",
 	"/proto.MetadataApi/UpdateMetadata",
 	"/proto.MetadataApi/SaveBucket",
+	"/proto.MetadataApi/UpdateVersion",
 	"/proto.MetadataApi/RemoveVersion",
 })
 
diff --git a/src/metaserver/internal/usecase/raftimpl/raft_apply.go b/src/metaserver/internal/usecase/raftimpl/raft_apply.go
index bdb09f4..d1b870a 100644
--- a/src/metaserver/internal/usecase/raftimpl/raft_apply.go
+++ b/src/metaserver/internal/usecase/raftimpl/raft_apply.go
@@ -36,6 +36,9 @@ func (r *raftApplier) ApplyRaft(data *entity.RaftData) (bool, any, error) {
 		if rp, ok := resp.(error); ok {
 			return true, nil, rp
 		}		
+	} else if r.wrapper.Enabled {
+		// never write to a replica directly
+		return true, nil, usecase.ErrReadOnly
 	}
 	return false, nil, nil
 }
-- 
2.43.0


From 015380286629c188e10268b168a9217137984509 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 15/80] fix: caches hold only what the database holds:
 invalidated after every committed, replicated or restored change, and
 versions never share keys with objects

---
 src/common/cache/cache.go                     |   5 +
 src/common/cache/interface.go                 |   1 +
 src/metaserver/internal/app/app.go            |   9 +-
 src/metaserver/internal/usecase/db/storage.go |  29 ++++
 src/metaserver/internal/usecase/interfaces.go |   1 +
 .../usecase/repo/batch_bucket_repo.go         |  24 ++-
 .../internal/usecase/repo/batch_meta_repo.go  |  58 ++++++--
 .../internal/usecase/repo/bucket_repo.go      |  77 +++++-----
 .../usecase/repo/metadata_cache_repo.go       |  13 +-
 .../internal/usecase/repo/metadata_repo.go    | 140 ++++++++++--------
 10 files changed, 229 insertions(+), 128 deletions(-)

diff --git a/src/common/cache/cache.go b/src/common/cache/cache.go
index eb04342..9bd29a7 100644
--- a/src/common/cache/cache.go
+++ b/src/common/cache/cache.go
@@ -86,6 +86,11 @@ func (c *Cache) Delete(k string) {
 	_ = c.cache.Delete(k)
 }
 
+// Reset removes all entries
+func (c *Cache) Reset() {
+	_ = c.cache.Reset()
+}
+
 func (c *Cache) Close() error {
 	defer c.close()
 	// make it closing by GC
diff --git a/src/common/cache/interface.go b/src/common/cache/interface.go
index 58fcc36..e38d8d8 100644
--- a/src/common/cache/interface.go
+++ b/src/common/cache/interface.go
@@ -9,5 +9,6 @@ type ICache interface {
 	SetGob(k string, v interface{}) bool
 	Refresh(k string)
 	Delete(k string)
+	Reset()
 	Close() error
 }
diff --git a/src/metaserver/internal/app/app.go b/src/metaserver/internal/app/app.go
index b21fe17..9f32826 100644
--- a/src/metaserver/internal/app/app.go
+++ b/src/metaserver/internal/app/app.go
@@ -23,17 +23,18 @@ func Run(cfg *config.Config) {
 	pool.InitPool(cfg)
 	defer pool.Close()
 	// init repos
-	metaRepo := repo.NewMetadataRepo(pool.Storage, repo.NewMetadataCacheRepo(pool.Cache))
-	bucketRepo := repo.NewBucketRepo(pool.Storage, repo.NewBucketCacheRepo(pool.Cache))
+	metaCache, bucketCache := repo.NewMetadataCacheRepo(pool.Cache), repo.NewBucketCacheRepo(pool.Cache)
+	metaRepo := repo.NewMetadataRepo(pool.Storage, metaCache)
+	bucketRepo := repo.NewBucketRepo(pool.Storage, bucketCache)
 	// init raft
-	fsm := raftimpl.NewFSM(metaRepo, repo.NewBatchRepo(pool.Storage), bucketRepo, repo.NewBatchBucketRepo(pool.Storage), metaRepo)
+	fsm := raftimpl.NewFSM(metaRepo, repo.NewBatchRepo(pool.Storage, metaCache), bucketRepo, repo.NewBatchBucketRepo(pool.Storage, bucketCache), metaRepo)
 	raftWrapper := raftimpl.NewRaft(util.ServerAddress(cfg.Port), cfg.Cluster, fsm)
 	pool.RaftWrapper = raftWrapper
 	// init services
 	bucketServ := service.NewBucketService(bucketRepo, raftWrapper)
 	metaService := service.NewMetadataService(
 		metaRepo,
-		repo.NewBatchRepo(pool.Storage),
+		repo.NewBatchRepo(pool.Storage, metaCache),
 		repo.NewHashIndexRepo(pool.Storage),
 		raftWrapper,
 	)
diff --git a/src/metaserver/internal/usecase/db/storage.go b/src/metaserver/internal/usecase/db/storage.go
index 6bddebe..7bd9656 100644
--- a/src/metaserver/internal/usecase/db/storage.go
+++ b/src/metaserver/internal/usecase/db/storage.go
@@ -10,6 +10,7 @@ import (
 	"metaserver/internal/usecase"
 	"os"
 	"path/filepath"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -24,6 +25,8 @@ type Storage struct {
 	originalPath string
 	current      atomic.Value
 	rdOnly       atomic.Value
+	cacheLock    sync.Mutex
+	generation   uint64
 }
 
 func NewStorage() *Storage {
@@ -32,6 +35,32 @@ func NewStorage() *Storage {
 	return &Storage{rdOnly: at}
 }
 
+// Generation changes whenever InvalidateCache is called. Must be got before reading the value which will be cached
+func (s *Storage) Generation() uint64 {
+	s.cacheLock.Lock()
+	defer s.cacheLock.Unlock()
+	return s.generation
+}
+
+// FillCache calls fn only if nothing has been invalidated since the generation,
+// so that a value read before a write never replaces what the write has invalidated
+func (s *Storage) FillCache(generation uint64, fn func() error) error {
+	s.cacheLock.Lock()
+	defer s.cacheLock.Unlock()
+	if s.generation != generation {
+		return nil
+	}
+	return fn()
+}
+
+// InvalidateCache calls fn to remove cached values. Must be called after the write is committed
+func (s *Storage) InvalidateCache(fn func() error) error {
+	s.cacheLock.Lock()
+	defer s.cacheLock.Unlock()
+	s.generation++
+	return fn()
+}
+
 func (s *Storage) DB() *bolt.DB {
 	return s.current.Load().(*bolt.DB)
 }
diff --git a/src/metaserver/internal/usecase/interfaces.go b/src/metaserver/internal/usecase/interfaces.go
index c558176..ffc1cca 100644
--- a/src/metaserver/internal/usecase/interfaces.go
+++ b/src/metaserver/internal/usecase/interfaces.go
@@ -121,6 +121,7 @@ type (
 	IMetaCache interface {
 		ReadableRepo
 		WritableRepo
+		Clear()
 	}
 
 	BucketWritableRepo interface {
diff --git a/src/metaserver/internal/usecase/repo/batch_bucket_repo.go b/src/metaserver/internal/usecase/repo/batch_bucket_repo.go
index 3bc917a..a6e0eb2 100644
--- a/src/metaserver/internal/usecase/repo/batch_bucket_repo.go
+++ b/src/metaserver/internal/usecase/repo/batch_bucket_repo.go
@@ -2,6 +2,8 @@ package repo
 
 import (
 	"common/proto/msg"
+	"common/util"
+	"metaserver/internal/usecase"
 	"metaserver/internal/usecase/db"
 	"metaserver/internal/usecase/logic"
 )
@@ -9,22 +11,34 @@ import (
 type BatchBucketRepo struct {
 	db    *db.Storage
 	logic *logic.BucketCrud
+	cache usecase.BucketRepo
 }
 
-func NewBatchBucketRepo(db *db.Storage) *BatchBucketRepo {
-	return &BatchBucketRepo{db: db, logic: logic.NewBucketCrud()}
+func NewBatchBucketRepo(db *db.Storage, cache usecase.BucketRepo) *BatchBucketRepo {
+	return &BatchBucketRepo{db: db, logic: logic.NewBucketCrud(), cache: cache}
+}
+
+// batch executes fn and then removes the bucket from cache
+func (b *BatchBucketRepo) batch(fn usecase.TxFunc, name string) error {
+	if err := b.db.Batch(fn); err != nil {
+		return err
+	}
+	util.LogErrWithPre("bucket cache", b.db.InvalidateCache(func() error {
+		return b.cache.Remove(name)
+	}))
+	return nil
 }
 
 func (b *BatchBucketRepo) Create(bucket *msg.Bucket) (err error) {
-	return b.db.Batch(b.logic.Create(bucket))
+	return b.batch(b.logic.Create(bucket), bucket.Name)
 }
 
 func (b *BatchBucketRepo) Remove(name string) (err error) {
-	return b.db.Batch(b.logic.Delete(name))
+	return b.batch(b.logic.Delete(name), name)
 }
 
 func (b *BatchBucketRepo) Update(bucket *msg.Bucket) (err error) {
-	return b.db.Batch(b.logic.Update(bucket))
+	return b.batch(b.logic.Update(bucket), bucket.Name)
 }
 
 func (b *BatchBucketRepo) Sync() error {
diff --git a/src/metaserver/internal/usecase/repo/batch_meta_repo.go b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
index d2d24e2..925e687 100644
--- a/src/metaserver/internal/usecase/repo/batch_meta_repo.go
+++ b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
@@ -2,17 +2,31 @@ package repo
 
 import (
 	"common/proto/msg"
+	"common/util"
+	"errors"
 	"metaserver/internal/usecase"
 	"metaserver/internal/usecase/db"
 	"metaserver/internal/usecase/logic"
+
+	bolt "go.etcd.io/bbolt"
 )
 
 type BatchMetaRepo struct {
 	Storage *db.Storage
+	Cache   usecase.IMetaCache
+}
+
+func NewBatchRepo(stroe *db.Storage, c usecase.IMetaCache) *BatchMetaRepo {
+	return &BatchMetaRepo{Storage: stroe, Cache: c}
 }
 
-func NewBatchRepo(stroe *db.Storage) *BatchMetaRepo {
-	return &BatchMetaRepo{Storage: stroe}
+// batch executes fn and then removes what it changed from cache
+func (br *BatchMetaRepo) batch(fn usecase.TxFunc, invalidate func() error) error {
+	if err := br.Storage.Batch(fn); err != nil {
+		return err
+	}
+	util.LogErrWithPre("metadata cache", br.Storage.InvalidateCache(invalidate))
+	return nil
 }
 
 func (br *BatchMetaRepo) Sync() error {
@@ -27,42 +41,66 @@ func (br *BatchMetaRepo) AddVersion(name string, data *msg.Version) error {
 	if data == nil {
 		return usecase.ErrNilData
 	}
-	return br.Storage.Batch(logic.AddVer(name, data))
+	return br.batch(logic.AddVer(name, data), func() error {
+		return br.Cache.RemoveVersion(name, data.Sequence)
+	})
 }
 
 func (br *BatchMetaRepo) UpdateVersion(name string, data *msg.Version) error {
 	if data == nil {
 		return usecase.ErrNilData
 	}
-	return br.Storage.Batch(logic.UpdateVer(name, data))
+	return br.batch(logic.UpdateVer(name, data), func() error {
+		return br.Cache.RemoveVersion(name, data.Sequence)
+	})
 }
 
 func (br *BatchMetaRepo) RemoveVersion(name string, ver uint64) error {
-	return br.Storage.Batch(logic.RemoveVer(name, ver))
+	return br.batch(logic.RemoveVer(name, ver), func() error {
+		return br.Cache.RemoveVersion(name, ver)
+	})
 }
 
 func (br *BatchMetaRepo) AddMetadata(id string, data *msg.Metadata) error {
 	if data == nil {
 		return usecase.ErrNilData
 	}
-	return br.Storage.Batch(logic.AddMeta(id, data))
+	return br.batch(logic.AddMeta(id, data), func() error {
+		return br.Cache.RemoveMetadata(id)
+	})
 }
 
 func (br *BatchMetaRepo) UpdateMetadata(name string, data *msg.Metadata) error {
-	return br.Storage.Batch(logic.UpdateMeta(name, data))
+	return br.batch(logic.UpdateMeta(name, data), func() error {
+		return br.Cache.RemoveMetadata(name)
+	})
 }
 
 func (br *BatchMetaRepo) RemoveMetadata(name string) error {
-	return br.Storage.Batch(logic.RemoveMeta(name))
+	var versions []uint64
+	return br.batch(func(tx *bolt.Tx) error {
+		versions = versionNumbers(tx, name)
+		return logic.RemoveMeta(name)(tx)
+	}, func() error {
+		return errors.Join(br.Cache.RemoveMetadata(name), removeVersions(br.Cache, name, versions))
+	})
 }
 
 func (br *BatchMetaRepo) AddVersionFromRaft(id string, data *msg.Version) error {
 	if data == nil {
 		return usecase.ErrNilData
 	}
-	return br.Storage.Batch(logic.AddVerWithSequence(id, data))
+	return br.batch(logic.AddVerWithSequence(id, data), func() error {
+		return br.Cache.RemoveVersion(id, data.Sequence)
+	})
 }
 
 func (br *BatchMetaRepo) RemoveAllVersion(id string) error {
-	return br.Storage.Batch(logic.RemoveAllVer(id))
+	var versions []uint64
+	return br.batch(func(tx *bolt.Tx) error {
+		versions = versionNumbers(tx, id)
+		return logic.RemoveAllVer(id)(tx)
+	}, func() error {
+		return removeVersions(br.Cache, id, versions)
+	})
 }
diff --git a/src/metaserver/internal/usecase/repo/bucket_repo.go b/src/metaserver/internal/usecase/repo/bucket_repo.go
index 22a8b3b..90c52cc 100644
--- a/src/metaserver/internal/usecase/repo/bucket_repo.go
+++ b/src/metaserver/internal/usecase/repo/bucket_repo.go
@@ -1,7 +1,6 @@
 package repo
 
 import (
-	"common/graceful"
 	"common/proto/msg"
 	"common/util"
 	"errors"
@@ -24,71 +23,61 @@ func (b *BucketRepo) Foreach(fn func(k []byte, v []byte) error) error {
 	return b.db.View(b.logic.Foreach(fn))
 }
 
-func (b *BucketRepo) Get(name string) (res *msg.Bucket, err error) {
+func (b *BucketRepo) Get(name string) (*msg.Bucket, error) {
 	if data, err := b.cache.Get(name); err == nil {
 		return data, nil
 	}
-	res = new(msg.Bucket)
-	err = b.db.View(b.logic.Get(name, res))
-	go func() {
-		defer graceful.Recover()
-		if err == nil {
-			util.LogErrWithPre("bucket cache", b.cache.Create(res))
-		}
-	}()
-	return
+	generation := b.db.Generation()
+	res := new(msg.Bucket)
+	if err := b.db.View(b.logic.Get(name, res)); err != nil {
+		return res, err
+	}
+	util.LogErrWithPre("bucket cache", b.db.FillCache(generation, func() error {
+		return b.cache.Create(res)
+	}))
+	return res, nil
 }
 
-func (b *BucketRepo) Create(bucket *msg.Bucket) (err error) {
-	defer func() {
-		go func() {
-			defer graceful.Recover()
-			if err == nil {
-				util.LogErrWithPre("bucket cache", b.cache.Create(bucket))
-			}
-		}()
-	}()
-	return b.db.Update(b.logic.Create(bucket))
+func (b *BucketRepo) Create(bucket *msg.Bucket) error {
+	return b.update(b.logic.Create(bucket), bucket.Name)
 }
 
-func (b *BucketRepo) Remove(name string) (err error) {
-	defer func() {
-		go func() {
-			defer graceful.Recover()
-			if err == nil {
-				util.LogErrWithPre("bucket cache", b.cache.Remove(name))
-			}
-		}()
-	}()
-	return b.db.Update(b.logic.Delete(name))
+func (b *BucketRepo) Remove(name string) error {
+	return b.update(b.logic.Delete(name), name)
 }
 
-func (b *BucketRepo) Update(bucket *msg.Bucket) (err error) {
-	defer func() {
-		go func() {
-			if err == nil {
-				util.LogErrWithPre("bucket cache", b.cache.Update(bucket))
-			}
-		}()
-	}()
+func (b *BucketRepo) Update(bucket *msg.Bucket) error {
+	return b.update(b.logic.Update(bucket), bucket.Name)
+}
 
-	return b.db.Update(b.logic.Update(bucket))
+// update executes fn and then removes the bucket from cache
+func (b *BucketRepo) update(fn usecase.TxFunc, name string) error {
+	if err := b.db.Update(fn); err != nil {
+		return err
+	}
+	util.LogErrWithPre("bucket cache", b.db.InvalidateCache(func() error {
+		return b.cache.Remove(name)
+	}))
+	return nil
 }
 
 func (b *BucketRepo) List(prefix string, size int) ([]*msg.Bucket, int, error) {
 	var total int
+	generation := b.db.Generation()
 	list := make([]*msg.Bucket, 0, size)
 	err := b.db.View(b.logic.List(prefix, size, &list, &total))
 	// ignore not found err.
 	if errors.Is(err, usecase.ErrNotFound) {
 		err = nil
 	}
-	go func() {
-		defer graceful.Recover()
+	util.LogErrWithPre("bucket cache", b.db.FillCache(generation, func() error {
 		for _, item := range list {
-			util.LogErrWithPre("bucket cache", b.cache.Create(item))
+			if err := b.cache.Create(item); err != nil {
+				return err
+			}
 		}
-	}()
+		return nil
+	}))
 	return list, total, err
 }
 
diff --git a/src/metaserver/internal/usecase/repo/metadata_cache_repo.go b/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
index 271d930..3492bd8 100644
--- a/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
@@ -31,7 +31,8 @@ func (pe *partlyErr) Error() string {
 }
 
 const (
-	MetaCachePrefix = "metadata_"
+	MetaCachePrefix    = "metadata_"
+	VersionCachePrefix = "version_"
 )
 
 type MetadataCacheRepo struct {
@@ -58,7 +59,7 @@ func (m *MetadataCacheRepo) GetMetadata(s string) (*msg.Metadata, error) {
 }
 
 func (m *MetadataCacheRepo) GetVersion(s string, u uint64) (*msg.Version, error) {
-	key := fmt.Sprint(MetaCachePrefix, s, logic.Sep, u)
+	key := fmt.Sprint(VersionCachePrefix, s, logic.Sep, u)
 	if bt, ok := m.cache.HasGet(key); ok {
 		var en msg.Version
 		if err := util.DecodeMsgp(&en, bt); err != nil {
@@ -94,7 +95,7 @@ func (m *MetadataCacheRepo) AddMetadata(id string, metadata *msg.Metadata) error
 }
 
 func (m *MetadataCacheRepo) AddVersion(s string, version *msg.Version) error {
-	key := fmt.Sprint(MetaCachePrefix, s, logic.Sep, version.Sequence)
+	key := fmt.Sprint(VersionCachePrefix, s, logic.Sep, version.Sequence)
 	bt, err := util.EncodeMsgp(version)
 	if err != nil {
 		return err
@@ -117,7 +118,7 @@ func (m *MetadataCacheRepo) RemoveMetadata(s string) error {
 }
 
 func (m *MetadataCacheRepo) RemoveVersion(s string, u uint64) error {
-	m.cache.Delete(fmt.Sprint(MetaCachePrefix, s, logic.Sep, u))
+	m.cache.Delete(fmt.Sprint(VersionCachePrefix, s, logic.Sep, u))
 	return nil
 }
 
@@ -125,6 +126,10 @@ func (m *MetadataCacheRepo) RemoveAllVersion(string) error {
 	panic("not impl RemoveAllVersion")
 }
 
+func (m *MetadataCacheRepo) Clear() {
+	m.cache.Reset()
+}
+
 func (m *MetadataCacheRepo) AddVersionFromRaft(s string, version *msg.Version) error {
 	return m.AddVersion(s, version)
 }
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 241a7e6..d6eaeba 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -3,7 +3,6 @@ package repo
 import (
 	"bytes"
 	"common/cst"
-	"common/graceful"
 	"common/logs"
 	"common/proto/msg"
 	"common/util"
@@ -34,11 +33,9 @@ func (m *MetadataRepo) AddMetadata(id string, data *msg.Metadata) error {
 	if err := m.MainDB.Update(logic.AddMeta(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.AddMetadata(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.MainDB.InvalidateCache(func() error {
+		return m.Cache.RemoveMetadata(id)
+	}))
 	return nil
 }
 
@@ -49,26 +46,23 @@ func (m *MetadataRepo) UpdateMetadata(name string, data *msg.Metadata) error {
 	if err := m.MainDB.Update(logic.UpdateMeta(name, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.UpdateMetadata(name, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.MainDB.InvalidateCache(func() error {
+		return m.Cache.RemoveMetadata(name)
+	}))
 	return nil
 }
 
 func (m *MetadataRepo) RemoveMetadata(name string) error {
-	lastVer := m.GetLastVersionNumber(name)
-	if err := m.MainDB.Update(logic.RemoveMeta(name)); err != nil {
+	var versions []uint64
+	if err := m.MainDB.Update(func(tx *bolt.Tx) error {
+		versions = versionNumbers(tx, name)
+		return logic.RemoveMeta(name)(tx)
+	}); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		util.LogErrWithPre("metadata cache", m.Cache.RemoveMetadata(name))
-		for i := uint64(1); i <= lastVer; i++ {
-			util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(name, i))
-		}
-	}()
+	util.LogErrWithPre("metadata cache", m.MainDB.InvalidateCache(func() error {
+		return errors.Join(m.Cache.RemoveMetadata(name), removeVersions(m.Cache, name, versions))
+	}))
 	return nil
 }
 
@@ -76,14 +70,14 @@ func (m *MetadataRepo) GetMetadata(id string) (*msg.Metadata, error) {
 	if data, err := m.Cache.GetMetadata(id); err == nil {
 		return data, nil
 	}
+	generation := m.MainDB.Generation()
 	data := &msg.Metadata{}
 	if err := m.MainDB.View(logic.GetMeta(id, data)); err != nil {
 		return nil, err
 	}
-	go func() {
-		defer graceful.Recover()
-		util.LogErrWithPre("add metadata cache", m.Cache.AddMetadata(id, data))
-	}()
+	util.LogErrWithPre("add metadata cache", m.MainDB.FillCache(generation, func() error {
+		return m.Cache.AddMetadata(id, data)
+	}))
 	return data, nil
 }
 
@@ -100,11 +94,9 @@ func (m *MetadataRepo) AddVersion(id string, data *msg.Version) error {
 	if err := m.MainDB.Update(logic.AddVer(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.AddVersion(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.MainDB.InvalidateCache(func() error {
+		return m.Cache.RemoveVersion(id, data.Sequence)
+	}))
 	return nil
 }
 
@@ -121,11 +113,9 @@ func (m *MetadataRepo) AddVersionFromRaft(id string, data *msg.Version) error {
 	if err := m.MainDB.Update(logic.AddVerWithSequence(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.AddVersionFromRaft(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.MainDB.InvalidateCache(func() error {
+		return m.Cache.RemoveVersion(id, data.Sequence)
+	}))
 	return nil
 }
 
@@ -136,11 +126,9 @@ func (m *MetadataRepo) UpdateVersion(id string, data *msg.Version) error {
 	if err := m.MainDB.Update(logic.UpdateVer(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.UpdateVersion(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.MainDB.InvalidateCache(func() error {
+		return m.Cache.RemoveVersion(id, data.Sequence)
+	}))
 	return nil
 }
 
@@ -148,29 +136,41 @@ func (m *MetadataRepo) RemoveVersion(name string, ver uint64) error {
 	if err := m.MainDB.Update(logic.RemoveVer(name, ver)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.RemoveVersion(name, ver)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.MainDB.InvalidateCache(func() error {
+		return m.Cache.RemoveVersion(name, ver)
+	}))
 	return nil
 }
 
 func (m *MetadataRepo) RemoveAllVersion(name string) error {
-	last := m.GetLastVersionNumber(name)
-	if err := m.MainDB.Update(logic.RemoveAllVer(name)); err != nil {
+	var versions []uint64
+	if err := m.MainDB.Update(func(tx *bolt.Tx) error {
+		versions = versionNumbers(tx, name)
+		return logic.RemoveAllVer(name)(tx)
+	}); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		for i := uint64(0); i <= last; i++ {
-			err := m.Cache.RemoveVersion(name, i)
-			util.LogErrWithPre("remove version cache", err)
-		}
-	}()
+	util.LogErrWithPre("remove version cache", m.MainDB.InvalidateCache(func() error {
+		return removeVersions(m.Cache, name, versions)
+	}))
+	return nil
+}
+
+func versionNumbers(tx *bolt.Tx, name string) []uint64 {
+	if buk := logic.GetVersionBucket(tx, name); buk != nil {
+		return logic.VersionNumbers(buk)
+	}
 	return nil
 }
 
+func removeVersions(cache usecase.IMetaCache, name string, versions []uint64) error {
+	var errs []error
+	for _, v := range versions {
+		errs = append(errs, cache.RemoveVersion(name, v))
+	}
+	return errors.Join(errs...)
+}
+
 func (m *MetadataRepo) GetFirstVersionNumber(name string) uint64 {
 	var fst uint64 = 1
 	if err := m.MainDB.View(func(tx *bolt.Tx) error {
@@ -209,14 +209,14 @@ func (m *MetadataRepo) GetVersion(name string, ver uint64) (*msg.Version, error)
 	if data, err := m.Cache.GetVersion(name, ver); err == nil {
 		return data, nil
 	}
+	generation := m.MainDB.Generation()
 	data := &msg.Version{}
 	if err := m.MainDB.View(logic.GetVer(name, ver, data)); err != nil {
 		return nil, err
 	}
-	go func() {
-		defer graceful.Recover()
-		util.LogErrWithPre("add metadata cache", m.Cache.AddVersion(name, data))
-	}()
+	util.LogErrWithPre("add metadata cache", m.MainDB.FillCache(generation, func() error {
+		return m.Cache.AddVersion(name, data)
+	}))
 	return data, nil
 }
 
@@ -301,7 +301,14 @@ func (m *MetadataRepo) Restore(r io.Reader) (err error) {
 		return err
 	}
 	// reopen db
-	return m.MainDB.Replace(dbPath)
+	if err = m.MainDB.Replace(dbPath); err != nil {
+		return err
+	}
+	// nothing cached belongs to the new db
+	return m.MainDB.InvalidateCache(func() error {
+		m.Cache.Clear()
+		return nil
+	})
 }
 
 func (m *MetadataRepo) ForeachVersionBytes(name string, fn func([]byte) bool) {
@@ -365,8 +372,8 @@ func (m *MetadataRepo) ApplyIndex(i uint64) error {
 }
 
 func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string, ts int64) error {
-	return m.MainDB.Update(func(tx *bolt.Tx) error {
-		var keys []string
+	var keys []string
+	if err := m.MainDB.Update(func(tx *bolt.Tx) error {
 		if err := logic.NewHashIndexLogic().GetIndex(hash, &keys)(tx); err != nil {
 			return err
 		}
@@ -392,7 +399,18 @@ func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string,
 			}
 		}
 		return nil
-	})
+	}); err != nil {
+		return err
+	}
+	util.LogErrWithPre("metadata cache", m.MainDB.InvalidateCache(func() error {
+		var errs []error
+		for _, key := range keys {
+			idx := strings.LastIndexByte(key, '.')
+			errs = append(errs, m.Cache.RemoveVersion(key[:idx], util.ToUint64(key[idx+1:])))
+		}
+		return errors.Join(errs...)
+	}))
+	return nil
 }
 
 func (m *MetadataRepo) ExistsByUniqueId(uniqueId string) (bool, error) {
-- 
2.43.0


From c6b9506280f00ac7656db33069a9470cce5d0839 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 16/80] fix: stopping the storage waits for the removal of a
 replaced database file

---
 src/metaserver/internal/usecase/db/storage.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/metaserver/internal/usecase/db/storage.go b/src/metaserver/internal/usecase/db/storage.go
index 7bd9656..cdabfb6 100644
--- a/src/metaserver/internal/usecase/db/storage.go
+++ b/src/metaserver/internal/usecase/db/storage.go
@@ -27,6 +27,7 @@ type Storage struct {
 	rdOnly       atomic.Value
 	cacheLock    sync.Mutex
 	generation   uint64
+	replacing    sync.WaitGroup
 }
 
 func NewStorage() *Storage {
@@ -103,6 +104,8 @@ func (s *Storage) Batch(fn usecase.TxFunc) error {
 
 func (s *Storage) Stop() error {
 	dbLog.Info("stop db...")
+	// wait until replaced db files are removed, or the renamed file will be removed as well
+	s.replacing.Wait()
 	curDB := s.DB()
 	curPath := curDB.Path()
 	if err := curDB.Close(); err != nil {
@@ -163,8 +166,10 @@ func (s *Storage) Replace(replacePath string) (err error) {
 	// change current db to new one
 	s.current.Store(newDB)
 	// close and remove old db file
+	s.replacing.Add(1)
 	go func() {
 		defer graceful.Recover()
+		defer s.replacing.Done()
 		oldPath := old.Path()
 		util.LogErrWithPre("close old db", old.Close())
 		util.LogErrWithPre("remove old db file", os.RemoveAll(oldPath))
-- 
2.43.0


From 9693d316e3baab6e6a0139bdc7f5414b06894245 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 17/80] fix: slots can be migrated from a server without
 objects or buckets

---
 .../internal/usecase/logic/metadata_logic.go         |  3 +++
 .../internal/usecase/repo/metadata_repo.go           | 12 ++++++++++--
 .../internal/usecase/service/hashslot_service.go     |  3 ++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index c2757be..aae2480 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -23,6 +23,9 @@ const (
 func ForeachKeys(fn func(string) bool) TxFunc {
 	return func(tx *bolt.Tx) error {
 		root := GetMetadataBucket(tx)
+		if root == nil {
+			return nil
+		}
 		return root.ForEach(func(k, v []byte) error {
 			if !fn(string(k)) {
 				return ErrNotFound
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index d6eaeba..d46a522 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -313,7 +313,11 @@ func (m *MetadataRepo) Restore(r io.Reader) (err error) {
 
 func (m *MetadataRepo) ForeachVersionBytes(name string, fn func([]byte) bool) {
 	_ = m.MainDB.View(func(tx *bolt.Tx) error {
-		_ = logic.GetVersionBucket(tx, name).ForEach(func(k, v []byte) error {
+		buk := logic.GetVersionBucket(tx, name)
+		if buk == nil {
+			return nil
+		}
+		_ = buk.ForEach(func(k, v []byte) error {
 			if !fn(v) {
 				return usecase.ErrNotFound
 			}
@@ -326,7 +330,11 @@ func (m *MetadataRepo) ForeachVersionBytes(name string, fn func([]byte) bool) {
 func (m *MetadataRepo) GetMetadataBytes(key string) ([]byte, error) {
 	var res []byte
 	err := m.MainDB.View(func(tx *bolt.Tx) error {
-		v := logic.GetMetadataBucket(tx).Get(util.StrToBytes(key))
+		root := logic.GetMetadataBucket(tx)
+		if root == nil {
+			return usecase.ErrNotFound
+		}
+		v := root.Get(util.StrToBytes(key))
 		if v == nil {
 			return usecase.ErrNotFound
 		}
diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index 3ed0091..0b6ddd5 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -385,7 +385,8 @@ func (h *HashSlotService) migrateBuckets(stream pb.HashSlot_StreamingReceiveClie
 			}
 		}()
 	}
-	if err != nil {
+	// no bucket at all is not a failure
+	if err != nil && !usecase.IsNotFound(err) {
 		errs = append(errs, err)
 	}
 	hsLog.Infof("migration totally %d buckets and successed %d", total, successBuckets)
-- 
2.43.0


From 0bda760c3576a259ec7959be488bdacfa76f06cd Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:55:34 +0000
Subject: [PATCH 18/80] fix: migrated objects and buckets keep their timestamps
 and replace what a failed migration has left

---
 src/metaserver/internal/usecase/interfaces.go   |  2 ++
 .../internal/usecase/service/bucket_service.go  | 16 ++++++++++++++++
 .../usecase/service/hashslot_service.go         |  4 ++--
 .../usecase/service/metadata_service.go         | 17 +++++++++++++++++
 4 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/usecase/interfaces.go b/src/metaserver/internal/usecase/interfaces.go
index ffc1cca..aeada32 100644
--- a/src/metaserver/internal/usecase/interfaces.go
+++ b/src/metaserver/internal/usecase/interfaces.go
@@ -22,6 +22,7 @@ type (
 
 	IMetadataService interface {
 		MetadataRpcService
+		ReceiveMetadata(string, *msg.Metadata) error
 		ReceiveVersion(string, *msg.Version) error
 		AddMetadata(string, *msg.Metadata) error
 		AddVersion(string, *msg.Version) (int, error)
@@ -145,5 +146,6 @@ type (
 
 	BucketService interface {
 		BucketRepo
+		Receive(bucket *msg.Bucket) error
 	}
 )
diff --git a/src/metaserver/internal/usecase/service/bucket_service.go b/src/metaserver/internal/usecase/service/bucket_service.go
index cf949ac..7d26013 100644
--- a/src/metaserver/internal/usecase/service/bucket_service.go
+++ b/src/metaserver/internal/usecase/service/bucket_service.go
@@ -34,6 +34,22 @@ func (b *BucketService) Create(bucket *msg.Bucket) error {
 	return b.BucketRepo.Create(bucket)
 }
 
+// Receive add a migrated bucket as it was, in place of what has been left by a failed migration
+func (b *BucketService) Receive(bucket *msg.Bucket) error {
+	if err := b.Remove(bucket.Name); err != nil {
+		return err
+	}
+	if ok, _, err := b.ApplyRaft(&entity.RaftData{
+		Type:   entity.LogInsert,
+		Dest:   entity.DestBucket,
+		Name:   bucket.Name,
+		Bucket: bucket,
+	}); ok {
+		return err
+	}
+	return b.BucketRepo.Create(bucket)
+}
+
 func (b *BucketService) Remove(name string) error {
 	if ok, _, err := b.ApplyRaft(&entity.RaftData{
 		Type: entity.LogRemove,
diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index 0b6ddd5..5a1d42d 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -205,13 +205,13 @@ func (h *HashSlotService) ReceiveItem(item *pb.MigrationItem) error {
 		if err = util.DecodeMsgp(&i, item.Data); err != nil {
 			return err
 		}
-		err = h.Service.AddMetadata(item.Name, &i)
+		err = h.Service.ReceiveMetadata(item.Name, &i)
 	case entity.DestBucket:
 		var i msg.Bucket
 		if err = util.DecodeMsgp(&i, item.Data); err != nil {
 			return err
 		}
-		err = h.BucketService.Create(&i)
+		err = h.BucketService.Receive(&i)
 	default:
 		hsLog.Errorf("unknown migration item: %d", item.Dest)
 	}
diff --git a/src/metaserver/internal/usecase/service/metadata_service.go b/src/metaserver/internal/usecase/service/metadata_service.go
index 2af69ed..9c5acab 100644
--- a/src/metaserver/internal/usecase/service/metadata_service.go
+++ b/src/metaserver/internal/usecase/service/metadata_service.go
@@ -59,6 +59,23 @@ func (m *MetadataService) AddVersion(name string, data *msg.Version) (int, error
 	return int(data.Sequence), nil
 }
 
+// ReceiveMetadata add a migrated metadata as it was, in place of what has been left by a failed migration
+func (m *MetadataService) ReceiveMetadata(id string, data *msg.Metadata) error {
+	if err := m.RemoveMetadata(id); err != nil {
+		return err
+	}
+	if ok, _, err := m.ApplyRaft(&entity.RaftData{
+		Type:     entity.LogInsert,
+		Dest:     entity.DestMetadata,
+		Name:     id,
+		Metadata: data,
+	}); ok {
+		return err
+	}
+
+	return m.repo.AddMetadata(id, data)
+}
+
 func (m *MetadataService) ReceiveVersion(name string, data *msg.Version) error {
 	if ok, _, err := m.ApplyRaft(&entity.RaftData{
 		Type:    entity.LogMigrate,
-- 
2.43.0


From bd479fd7d739f8d057b76c89c815198525d784d6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 19/80] fix: migrated data is deleted only after the target
 owns its slots, and slots are reloaded once changed

---
 .../internal/usecase/db/hashslot_db.go        | 10 ++++-
 .../usecase/service/hashslot_service.go       | 42 +++++++++++--------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/metaserver/internal/usecase/db/hashslot_db.go b/src/metaserver/internal/usecase/db/hashslot_db.go
index cb4eb7e..48f1cc0 100644
--- a/src/metaserver/internal/usecase/db/hashslot_db.go
+++ b/src/metaserver/internal/usecase/db/hashslot_db.go
@@ -182,8 +182,14 @@ func (h *HashSlotDB) Save(id string, info *hashslot.SlotInfo) (err error) {
 	}
 	info.GroupID = id
 	// saving
-	_, err = h.kv.Put(context.Background(), key, string(bt))
-	return err
+	if _, err = h.kv.Put(context.Background(), key, string(bt)); err != nil {
+		return err
+	}
+	// never serve keys by outdated slots
+	if _, inner := h.GetEdgeProvider(true); inner != nil {
+		hsLog.Errorf("reload hash-slots after saving: %s", inner)
+	}
+	return nil
 }
 
 func (h *HashSlotDB) Remove(id string) error {
diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index 5a1d42d..0787e85 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -1,7 +1,6 @@
 package service
 
 import (
-	"common/graceful"
 	"common/hashslot"
 	"common/logs"
 	"common/proto"
@@ -11,6 +10,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"io"
 	"metaserver/config"
 	"metaserver/internal/entity"
 	"metaserver/internal/usecase"
@@ -242,8 +242,10 @@ func (h *HashSlotService) AutoMigrate(toLoc *pb.LocationInfo, slots []string) er
 	}
 	delEdges, _ := hashslot.WrapSlotsToEdges(slots, "")
 	var errs []error
-	errs = append(errs, h.migrateMetadata(stream, delEdges)...)
-	errs = append(errs, h.migrateBuckets(stream, delEdges)...)
+	movedMetadata, metaErrs := h.migrateMetadata(stream, delEdges)
+	errs = append(errs, metaErrs...)
+	movedBuckets, bucketErrs := h.migrateBuckets(stream, delEdges)
+	errs = append(errs, bucketErrs...)
 	if len(errs) > 0 {
 		return errors.Join(errs...)
 	}
@@ -266,11 +268,26 @@ func (h *HashSlotService) AutoMigrate(toLoc *pb.LocationInfo, slots []string) er
 	if err = stream.CloseSend(); err != nil {
 		hsLog.Error(err)
 	}
+	// wait until target finishes receiving
+	if _, err = stream.Recv(); err != io.EOF {
+		return fmt.Errorf("target fails to finish migration: %w", err)
+	}
+	// data is owned by target now
+	for _, key := range movedMetadata {
+		if inner := h.Service.RemoveMetadata(key); inner != nil {
+			hsLog.Errorf("delete-metadata %s fail: %s", key, inner)
+		}
+	}
+	for _, key := range movedBuckets {
+		if inner := h.BucketService.Remove(key); inner != nil {
+			hsLog.Errorf("delete-bucket %s err: %s", key, inner)
+		}
+	}
 	hsLog.Infof("finish migration to %s success", toLoc.Host)
 	return nil
 }
 
-func (h *HashSlotService) migrateMetadata(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) (errs []error) {
+func (h *HashSlotService) migrateMetadata(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) (moved []string, errs []error) {
 	var sucNum int
 	metaKeys := h.Service.FilterKeys(func(s string) bool {
 		return hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(util.StrToBytes(s)), edges)
@@ -328,19 +345,13 @@ func (h *HashSlotService) migrateMetadata(stream pb.HashSlot_StreamingReceiveCli
 			continue
 		}
 		sucNum++
-		// delete if all success
-		go func() {
-			defer graceful.Recover()
-			if inner := h.Service.RemoveMetadata(key); inner != nil {
-				hsLog.Errorf("delete-metadata %s fail: %s", key, inner)
-			}
-		}()
+		moved = append(moved, key)
 	}
 	hsLog.Infof("migration totally %d metadata and successed %d verions", total, sucNum)
 	return
 }
 
-func (h *HashSlotService) migrateBuckets(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) (errs []error) {
+func (h *HashSlotService) migrateBuckets(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) (moved []string, errs []error) {
 	var successBuckets int
 	var migKeys [][]byte
 	err := h.BucketService.Foreach(func(k []byte, _ []byte) error {
@@ -378,12 +389,7 @@ func (h *HashSlotService) migrateBuckets(stream pb.HashSlot_StreamingReceiveClie
 			continue
 		}
 		successBuckets++
-		go func() {
-			defer graceful.Recover()
-			if err := h.BucketService.Remove(keyStr); err != nil {
-				hsLog.Errorf("delete-bucket %s err: %s", keyStr, err)
-			}
-		}()
+		moved = append(moved, keyStr)
 	}
 	// no bucket at all is not a failure
 	if err != nil && !usecase.IsNotFound(err) {
-- 
2.43.0


From bc6150b64fd01e08179429fc4f14fe8032384381 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 20/80] fix: cleaning a stale hash index entry never removes a
 live one

---
 .../internal/usecase/repo/hash_index_repo.go   | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/metaserver/internal/usecase/repo/hash_index_repo.go b/src/metaserver/internal/usecase/repo/hash_index_repo.go
index 1eb340e..4362e74 100644
--- a/src/metaserver/internal/usecase/repo/hash_index_repo.go
+++ b/src/metaserver/internal/usecase/repo/hash_index_repo.go
@@ -1,8 +1,13 @@
 package repo
 
 import (
+	"common/proto/msg"
+	"common/util"
 	"metaserver/internal/usecase/db"
 	"metaserver/internal/usecase/logic"
+	"strings"
+
+	bolt "go.etcd.io/bbolt"
 )
 
 type HashIndexRepo struct {
@@ -13,8 +18,19 @@ func NewHashIndexRepo(s *db.Storage) *HashIndexRepo {
 	return &HashIndexRepo{Storage: s}
 }
 
+// Remove removes the index of a version which does not exist any more
 func (h *HashIndexRepo) Remove(hash, key string) error {
-	return h.Storage.Batch(logic.NewHashIndexLogic().RemoveIndex(hash, key))
+	return h.Storage.Batch(func(tx *bolt.Tx) error {
+		if idx := strings.LastIndex(key, logic.Sep); idx >= 0 {
+			var ver msg.Version
+			err := logic.GetVer(key[:idx], util.ToUint64(key[idx+1:]), &ver)(tx)
+			// it might have been added again
+			if err == nil && ver.Hash == hash {
+				return nil
+			}
+		}
+		return logic.NewHashIndexLogic().RemoveIndex(hash, key)(tx)
+	})
 }
 
 func (h *HashIndexRepo) FindAll(hash string) (keys []string, err error) {
-- 
2.43.0


From 4b793d143c251c9b30518ae67d8f78331b9a8cbf Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 21/80] fix: a restarted raft node does not apply again what
 its database already holds

---
 src/metaserver/internal/usecase/db/storage.go | 58 ++++++++++++++++++-
 src/metaserver/internal/usecase/interfaces.go |  1 +
 .../internal/usecase/raftimpl/fsm_impl.go     | 34 +++++++++++
 .../internal/usecase/raftimpl/raft_impl.go    | 24 ++++++++
 .../internal/usecase/repo/hash_index_repo.go  |  2 +-
 .../internal/usecase/repo/metadata_repo.go    | 28 ++-------
 6 files changed, 123 insertions(+), 24 deletions(-)

diff --git a/src/metaserver/internal/usecase/db/storage.go b/src/metaserver/internal/usecase/db/storage.go
index cdabfb6..a1defe0 100644
--- a/src/metaserver/internal/usecase/db/storage.go
+++ b/src/metaserver/internal/usecase/db/storage.go
@@ -28,6 +28,7 @@ type Storage struct {
 	cacheLock    sync.Mutex
 	generation   uint64
 	replacing    sync.WaitGroup
+	applying     atomic.Uint64
 }
 
 func NewStorage() *Storage {
@@ -62,6 +63,53 @@ func (s *Storage) InvalidateCache(fn func() error) error {
 	return fn()
 }
 
+const appliedIndexKey = "go.dfs.metadata.special.lastAppliedIndexKey"
+
+// Applying makes following writes record the index of the replicated log they belong to. 0 means no log
+func (s *Storage) Applying(index uint64) {
+	s.applying.Store(index)
+}
+
+// AppliedIndex is the index of the last replicated log which has changed the db
+func (s *Storage) AppliedIndex() (index uint64, err error) {
+	err = s.View(func(tx *bolt.Tx) error {
+		if buk := tx.Bucket([]byte(appliedIndexKey)); buk != nil {
+			index = buk.Sequence()
+		}
+		return nil
+	})
+	return
+}
+
+// SetAppliedIndex overwrites the index of the last replicated log
+func (s *Storage) SetAppliedIndex(index uint64) error {
+	return s.DB().Update(setAppliedIndex(index))
+}
+
+func setAppliedIndex(index uint64) usecase.TxFunc {
+	return func(tx *bolt.Tx) error {
+		buk, err := tx.CreateBucketIfNotExists([]byte(appliedIndexKey))
+		if err != nil {
+			return err
+		}
+		return buk.SetSequence(index)
+	}
+}
+
+// logged records the index of the log together with its changes
+func (s *Storage) logged(fn usecase.TxFunc) usecase.TxFunc {
+	index := s.applying.Load()
+	if index == 0 {
+		return fn
+	}
+	return func(tx *bolt.Tx) error {
+		if err := fn(tx); err != nil {
+			return err
+		}
+		return setAppliedIndex(index)(tx)
+	}
+}
+
 func (s *Storage) DB() *bolt.DB {
 	return s.current.Load().(*bolt.DB)
 }
@@ -86,7 +134,7 @@ func (s *Storage) Update(fn usecase.TxFunc) error {
 	if s.rdOnly.Load().(bool) {
 		return usecase.ErrReadOnly
 	}
-	return s.DB().Update(fn)
+	return s.DB().Update(s.logged(fn))
 }
 
 func (s *Storage) Batch(fn usecase.TxFunc) error {
@@ -96,6 +144,14 @@ func (s *Storage) Batch(fn usecase.TxFunc) error {
 			dbLog.Debugf("batch-write tx spent %d ms\n%s", time.Since(start).Milliseconds(), graceful.GetLimitStacks(3, 3))
 		}()
 	}
+	if s.rdOnly.Load().(bool) {
+		return usecase.ErrReadOnly
+	}
+	return s.DB().Batch(s.logged(fn))
+}
+
+// BatchLocal is Batch for changes of this server only, which are in no replicated log
+func (s *Storage) BatchLocal(fn usecase.TxFunc) error {
 	if s.rdOnly.Load().(bool) {
 		return usecase.ErrReadOnly
 	}
diff --git a/src/metaserver/internal/usecase/interfaces.go b/src/metaserver/internal/usecase/interfaces.go
index aeada32..d4b615f 100644
--- a/src/metaserver/internal/usecase/interfaces.go
+++ b/src/metaserver/internal/usecase/interfaces.go
@@ -76,6 +76,7 @@ type (
 		Restore(io.Reader) error
 		LastAppliedIndex() (uint64, error)
 		ApplyIndex(i uint64) error
+		Applying(i uint64)
 	}
 
 	RaftApply interface {
diff --git a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
index 118b33a..3a5173e 100644
--- a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
@@ -104,6 +104,28 @@ func (f *FSMImpl) applyLocate(data *entity.RaftData) *FSMResponse {
 	return FSMResult(f.metaRepo.UpdateLocateByHash(data.Name, int(data.Sequence), data.Version.Locate[0], data.Version.Ts))
 }
 
+// applied tells whether the log is already in db: raft replays the whole log on every start
+func (f *FSMImpl) applied(lg *raft.Log) bool {
+	if lg.Index == 0 {
+		return false
+	}
+	last, err := f.snapshot.LastAppliedIndex()
+	if err != nil {
+		fsmLog.Errorf("get last applied index: %s", err)
+		return false
+	}
+	return lg.Index <= last
+}
+
+// checkAppliedIndex forgets the applied index if the log, which ends at lastIndex, is another one
+func (f *FSMImpl) checkAppliedIndex(lastIndex uint64) error {
+	applied, err := f.snapshot.LastAppliedIndex()
+	if err != nil || applied <= lastIndex {
+		return err
+	}
+	return f.snapshot.ApplyIndex(0)
+}
+
 func (f *FSMImpl) Apply(lg *raft.Log) (r any) {
 	if lg == nil || len(lg.Data) == 0 {
 		return FSMResult(ErrNilData)
@@ -117,6 +139,12 @@ func (f *FSMImpl) Apply(lg *raft.Log) (r any) {
 		return err
 	}
 
+	if f.applied(lg) {
+		return FSMResult(nil)
+	}
+	f.snapshot.Applying(lg.Index)
+	defer f.snapshot.Applying(0)
+
 	switch data.Dest {
 	case entity.DestMetadata:
 		return f.applyMetadata(&data)
@@ -135,6 +163,7 @@ func (f *FSMImpl) Apply(lg *raft.Log) (r any) {
 func (f *FSMImpl) ApplyBatch(lgs []*raft.Log) []any {
 	var data entity.RaftData
 	res := make([]any, len(lgs))
+	defer f.snapshot.Applying(0)
 
 	for i, lg := range lgs {
 		if lg == nil || len(lg.Data) == 0 {
@@ -149,6 +178,11 @@ func (f *FSMImpl) ApplyBatch(lgs []*raft.Log) []any {
 			res[i] = err
 			continue
 		}
+		if f.applied(lg) {
+			res[i] = FSMResult(nil)
+			continue
+		}
+		f.snapshot.Applying(lg.Index)
 		data.Batch = true
 		switch data.Dest {
 		case entity.DestMetadata:
diff --git a/src/metaserver/internal/usecase/raftimpl/raft_impl.go b/src/metaserver/internal/usecase/raftimpl/raft_impl.go
index 0f36234..5b42dec 100644
--- a/src/metaserver/internal/usecase/raftimpl/raft_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/raft_impl.go
@@ -53,6 +53,12 @@ func NewRaft(localAddr string, cfg config.ClusterConfig, fsm raft.FSM) *RaftWrap
 	})
 	ldb, sdb, fss, closeFn := newRaftStore(baseDir)
 
+	if f, ok := fsm.(interface{ checkAppliedIndex(uint64) error }); ok {
+		if err := f.checkAppliedIndex(lastIndex(ldb, fss)); err != nil {
+			panic(fmt.Errorf("check applied index: %v", err))
+		}
+	}
+
 	r, err := raft.NewRaft(c, fsm, ldb, sdb, fss, manager.Transport())
 	if err != nil {
 		panic(fmt.Errorf("raft.NewRaft: %v", err))
@@ -107,6 +113,24 @@ func NewRaft(localAddr string, cfg config.ClusterConfig, fsm raft.FSM) *RaftWrap
 }
 
 // newRaftStore init storage
+// lastIndex is the last index of the stored log and snapshots
+func lastIndex(logStore raft.LogStore, snapshots raft.SnapshotStore) uint64 {
+	last, err := logStore.LastIndex()
+	if err != nil {
+		panic(fmt.Errorf("last index of raft log: %v", err))
+	}
+	metas, err := snapshots.List()
+	if err != nil {
+		panic(fmt.Errorf("list raft snapshots: %v", err))
+	}
+	for _, meta := range metas {
+		if meta.Index > last {
+			last = meta.Index
+		}
+	}
+	return last
+}
+
 func newRaftStore(baseDir string) (raft.LogStore, raft.StableStore, raft.SnapshotStore, func()) {
 	if err := os.MkdirAll(baseDir, cst.OS.ModeUser); err != nil {
 		panic(err)
diff --git a/src/metaserver/internal/usecase/repo/hash_index_repo.go b/src/metaserver/internal/usecase/repo/hash_index_repo.go
index 4362e74..1c337bf 100644
--- a/src/metaserver/internal/usecase/repo/hash_index_repo.go
+++ b/src/metaserver/internal/usecase/repo/hash_index_repo.go
@@ -20,7 +20,7 @@ func NewHashIndexRepo(s *db.Storage) *HashIndexRepo {
 
 // Remove removes the index of a version which does not exist any more
 func (h *HashIndexRepo) Remove(hash, key string) error {
-	return h.Storage.Batch(func(tx *bolt.Tx) error {
+	return h.Storage.BatchLocal(func(tx *bolt.Tx) error {
 		if idx := strings.LastIndex(key, logic.Sep); idx >= 0 {
 			var ver msg.Version
 			err := logic.GetVer(key[:idx], util.ToUint64(key[idx+1:]), &ver)(tx)
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index d46a522..bc80d0e 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -351,32 +351,16 @@ func (m *MetadataRepo) GetExtra(id string) (*msg.Extra, error) {
 	return &i, err
 }
 
-const lastAppliedIndexKey = "go.dfs.metadata.special.lastAppliedIndexKey"
-
 func (m *MetadataRepo) LastAppliedIndex() (uint64, error) {
-	var r uint64
-	err := m.MainDB.View(func(tx *bolt.Tx) error {
-		specBuc := tx.Bucket(util.StrToBytes(lastAppliedIndexKey))
-		if specBuc == nil {
-			return nil
-		}
-		r = specBuc.Sequence()
-		return nil
-	})
-	return r, err
+	return m.MainDB.AppliedIndex()
 }
 
 func (m *MetadataRepo) ApplyIndex(i uint64) error {
-	return m.MainDB.Update(func(tx *bolt.Tx) error {
-		specBuc, err := tx.CreateBucketIfNotExists(util.StrToBytes(lastAppliedIndexKey))
-		if err != nil {
-			return err
-		}
-		if i > specBuc.Sequence() {
-			return specBuc.SetSequence(i)
-		}
-		return nil
-	})
+	return m.MainDB.SetAppliedIndex(i)
+}
+
+func (m *MetadataRepo) Applying(i uint64) {
+	m.MainDB.Applying(i)
 }
 
 func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string, ts int64) error {
-- 
2.43.0


From 58ca2129916f4b7893c684570434d1253878aa2a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 22/80] fix: a snapshot that could not be written is cancelled
 and reported to raft

---
 src/metaserver/internal/usecase/raftimpl/fsm_impl.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
index 3a5173e..950ce2a 100644
--- a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
@@ -235,11 +235,17 @@ type snapshot struct {
 
 func (s *snapshot) Persist(sink raft.SnapshotSink) error {
 	gzipWt := gzip.NewWriter(sink)
-	if _, err := s.WriteTo(gzipWt); err != nil {
+	_, err := s.WriteTo(gzipWt)
+	if err == nil {
+		// writes what is left and the checksum
+		err = gzipWt.Close()
+	}
+	if err != nil {
 		fsmLog.Error(err)
-		return sink.Cancel()
+		util.LogErr(sink.Cancel())
+		// raft compacts the log if there is no error
+		return err
 	}
-	util.LogErr(gzipWt.Close())
 	return sink.Close()
 }
 
-- 
2.43.0


From ca0d29b3c521128d94d6f66befd42f0ab222ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 23/80] fix: a server removes what a failed migration has left
 before it receives the slots again, and never receives slots it partly owns

---
 .../usecase/service/hashslot_service.go       | 50 +++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index 0787e85..0101eff 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -137,10 +137,34 @@ func (h *HashSlotService) PrepareMigrationFrom(loc *pb.LocationInfo, slots []str
 			return fmt.Errorf("slot %s is currently in this server", edge)
 		}
 	}
+	// ensure no part of them belongs to this group
+	info, exist, err := h.Store.Get(h.Cfg.StoreID)
+	if err != nil {
+		return err
+	}
+	if !exist {
+		return fmt.Errorf("no slot-info of %s", h.Cfg.StoreID)
+	}
+	curEdges, err := hashslot.WrapSlotsToEdges(info.Slots, "")
+	if err != nil {
+		return err
+	}
+	for _, edge := range edges {
+		for _, cur := range curEdges {
+			if edge.Start < cur.End && cur.Start < edge.End {
+				return fmt.Errorf("slot %s is partly in this server", edge)
+			}
+		}
+	}
 	// change status to migrate-from
 	if err = h.Store.ReadyMigrateFrom(loc.GetHost(), slots); err != nil {
 		return err
 	}
+	// what a failed migration has left may be outdated
+	if err = h.removeLeftovers(edges); err != nil {
+		_ = h.Store.FinishMigrateFrom()
+		return err
+	}
 	cancelCh := make(chan struct{})
 	h.startReceive = func() {
 		close(cancelCh)
@@ -158,6 +182,32 @@ func (h *HashSlotService) PrepareMigrationFrom(loc *pb.LocationInfo, slots []str
 	return nil
 }
 
+// removeLeftovers removes all data in slots which do not belong to this group
+func (h *HashSlotService) removeLeftovers(edges hashslot.EdgeList) error {
+	for _, key := range h.Service.FilterKeys(func(s string) bool {
+		return hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(util.StrToBytes(s)), edges)
+	}) {
+		if err := h.Service.RemoveMetadata(key); err != nil && !usecase.IsNotFound(err) {
+			return err
+		}
+	}
+	var buckets []string
+	if err := h.BucketService.Foreach(func(k []byte, _ []byte) error {
+		if hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(k), edges) {
+			buckets = append(buckets, string(k))
+		}
+		return nil
+	}); err != nil && !usecase.IsNotFound(err) {
+		return err
+	}
+	for _, name := range buckets {
+		if err := h.BucketService.Remove(name); err != nil && !usecase.IsNotFound(err) {
+			return err
+		}
+	}
+	return nil
+}
+
 func (h *HashSlotService) FinishReceiveItem(success bool) error {
 	h.startReceive()
 	var (
-- 
2.43.0


From e8751adb40fd0a5e3c3200ca58eb3e0e293b96a5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:59:48 +0000
Subject: [PATCH 24/80] fix: slots of a failed migration return to the source,
 and the source accepts no writes until they have changed hands

---
 .../internal/usecase/db/hashslot_db.go        |  3 +-
 .../usecase/service/hashslot_service.go       | 44 +++++++++++++++++--
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/metaserver/internal/usecase/db/hashslot_db.go b/src/metaserver/internal/usecase/db/hashslot_db.go
index 48f1cc0..6f1478f 100644
--- a/src/metaserver/internal/usecase/db/hashslot_db.go
+++ b/src/metaserver/internal/usecase/db/hashslot_db.go
@@ -172,7 +172,8 @@ func (h *HashSlotDB) Get(id string) (*hashslot.SlotInfo, bool, error) {
 }
 
 func (h *HashSlotDB) Save(id string, info *hashslot.SlotInfo) (err error) {
-	if h.status.Load() != StatusNormal {
+	// slots given away are saved before leaving the migration
+	if status := h.status.Load(); status != StatusNormal && status != StatusMigrateTo {
 		return errors.New("status not in normal")
 	}
 	key := fmt.Sprint(h.KeyPrefix, id)
diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index 0101eff..0cf5eaf 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -231,6 +231,16 @@ func (h *HashSlotService) FinishReceiveItem(success bool) error {
 	// combine to new slots, ignore error because both have been validated
 	curEdges, _ := hashslot.WrapSlotsToEdges(info.Slots, "")
 	newEdges, _ := hashslot.WrapSlotsToEdges(newSlots, "")
+	// the source may have taken them back in the meantime
+	provider, err := h.Store.GetEdgeProvider(true)
+	if err != nil {
+		return fmt.Errorf("update slot fails after finish migration: %w", err)
+	}
+	for _, edge := range newEdges {
+		if owners, _ := hashslot.FindRangeCurrentData(edge.Start, edge.End, provider); len(owners) > 0 {
+			return fmt.Errorf("update slot fails after finish migration: slot %s is owned already", owners[0])
+		}
+	}
 	info.Slots = hashslot.CombineEdges(curEdges, newEdges).Strings()
 	// save new slot-info
 	if err = logic.NewHashSlot().SaveToEtcd(h.Cfg.StoreID, info); err != nil {
@@ -300,10 +310,7 @@ func (h *HashSlotService) AutoMigrate(toLoc *pb.LocationInfo, slots []string) er
 		return errors.Join(errs...)
 	}
 	// all migrate success
-	if err = h.Store.FinishMigrateTo(); err != nil {
-		hsLog.Debugf("switch status to normal err: %s", err)
-	}
-	// remove slots from current slot-info
+	// remove slots from current slot-info, before writes are accepted again
 	info, _, err := h.Store.Get(h.Cfg.StoreID)
 	if err != nil {
 		return fmt.Errorf("update slot fails after finish migration: %w", err)
@@ -314,12 +321,16 @@ func (h *HashSlotService) AutoMigrate(toLoc *pb.LocationInfo, slots []string) er
 	if err = logic.NewHashSlot().SaveToEtcd(h.Cfg.StoreID, info); err != nil {
 		return fmt.Errorf("save new slot-info fails after finsih migrateion: %w", err)
 	}
+	if err = h.Store.FinishMigrateTo(); err != nil {
+		hsLog.Debugf("switch status to normal err: %s", err)
+	}
 	// close stream as success
 	if err = stream.CloseSend(); err != nil {
 		hsLog.Error(err)
 	}
 	// wait until target finishes receiving
 	if _, err = stream.Recv(); err != io.EOF {
+		h.takeBackSlots(delEdges)
 		return fmt.Errorf("target fails to finish migration: %w", err)
 	}
 	// data is owned by target now
@@ -337,6 +348,31 @@ func (h *HashSlotService) AutoMigrate(toLoc *pb.LocationInfo, slots []string) er
 	return nil
 }
 
+// takeBackSlots returns slots to this server, whose target failed to finish the migration, unless they are owned already
+func (h *HashSlotService) takeBackSlots(edges hashslot.EdgeList) {
+	provider, err := h.Store.GetEdgeProvider(true)
+	if err != nil {
+		hsLog.Errorf("take back slots %s: %s", edges.Strings(), err)
+		return
+	}
+	for _, edge := range edges {
+		if owners, _ := hashslot.FindRangeCurrentData(edge.Start, edge.End, provider); len(owners) > 0 {
+			hsLog.Errorf("take back slots %s: %s is owned already", edges.Strings(), owners[0])
+			return
+		}
+	}
+	info, exist, err := h.Store.Get(h.Cfg.StoreID)
+	if err != nil || !exist {
+		hsLog.Errorf("take back slots %s: get slot-info: exist=%v, err=%v", edges.Strings(), exist, err)
+		return
+	}
+	curEdges, _ := hashslot.WrapSlotsToEdges(info.Slots, "")
+	info.Slots = hashslot.CombineEdges(curEdges, edges).Strings()
+	if err = logic.NewHashSlot().SaveToEtcd(h.Cfg.StoreID, info); err != nil {
+		hsLog.Errorf("take back slots %s: %s", edges.Strings(), err)
+	}
+}
+
 func (h *HashSlotService) migrateMetadata(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) (moved []string, errs []error) {
 	var sucNum int
 	metaKeys := h.Service.FilterKeys(func(s string) bool {
-- 
2.43.0


From e573ac94bffc28893010f97683b04a443f14088f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:05:01 +0000
Subject: [PATCH 25/80] fix: the path cache removes whole paths, lists each
 once with the latest last and never writes into badger's memory

---
 .../internal/db/object_path_cache.go          | 91 +++++++++----------
 1 file changed, 41 insertions(+), 50 deletions(-)

diff --git a/src/objectserver/internal/db/object_path_cache.go b/src/objectserver/internal/db/object_path_cache.go
index 6baabc0..f37abdc 100644
--- a/src/objectserver/internal/db/object_path_cache.go
+++ b/src/objectserver/internal/db/object_path_cache.go
@@ -13,6 +13,9 @@ import (
 var (
 	Sep    = []byte(",")
 	SepEnc = []byte("%2C")
+
+	Escape    = []byte("%")
+	EscapeEnc = []byte("%25")
 )
 
 type PathCache struct {
@@ -37,30 +40,45 @@ func NewPathCache(storePath string) (*PathCache, error) {
 	}, nil
 }
 
-func (pc *PathCache) get(txn *badger.Txn, key []byte) ([]byte, error) {
-	var res []byte
+// get returns all encoded paths of key, badger.ErrKeyNotFound if there is none
+func (pc *PathCache) get(txn *badger.Txn, key []byte) ([][]byte, error) {
 	item, err := txn.Get(key)
-	if err == nil {
-		if err = item.Value(func(val []byte) error {
-			res = val
-			return nil
-		}); err != nil {
-			return nil, err
-		}
+	if err != nil {
+		return nil, err
 	}
-	return res, err
+	// the value belongs to badger, never append to it
+	value, err := item.ValueCopy(nil)
+	if err != nil {
+		return nil, err
+	}
+	if len(value) == 0 {
+		return nil, badger.ErrKeyNotFound
+	}
+	return bytes.Split(value, Sep), nil
 }
 
 func (pc *PathCache) encodeValue(val []byte) []byte {
 	// FIXME: allocate N and copy N
-	return bytes.ReplaceAll(val, Sep, SepEnc)
+	return bytes.ReplaceAll(bytes.ReplaceAll(val, Escape, EscapeEnc), Sep, SepEnc)
 }
 
 func (pc *PathCache) decodeValue(val []byte) []byte {
 	// FIXME: allocate N and copy N
-	return bytes.ReplaceAll(val, SepEnc, Sep)
+	return bytes.ReplaceAll(bytes.ReplaceAll(val, SepEnc, Sep), EscapeEnc, Escape)
 }
 
+// without returns all paths except path
+func without(paths [][]byte, path []byte) [][]byte {
+	res := make([][]byte, 0, len(paths)+1)
+	for _, p := range paths {
+		if !bytes.Equal(p, path) {
+			res = append(res, p)
+		}
+	}
+	return res
+}
+
+// Put records path as the last one of name
 func (pc *PathCache) Put(name, path string) error {
 	return pc.db.Update(func(txn *badger.Txn) error {
 		key := util.StrToBytes(name)
@@ -69,11 +87,7 @@ func (pc *PathCache) Put(name, path string) error {
 		if err != nil && err != badger.ErrKeyNotFound {
 			return err
 		}
-		// not use bytes.Join to avoid memory copy
-		if len(origin) > 0 {
-			value = append(append(origin, Sep...), value...)
-		}
-		return txn.Set(key, value)
+		return txn.Set(key, bytes.Join(append(without(origin, value), value), Sep))
 	})
 }
 
@@ -81,15 +95,10 @@ func (pc *PathCache) Put(name, path string) error {
 func (pc *PathCache) Get(name string) ([]string, error) {
 	var res []string
 	err := pc.db.View(func(txn *badger.Txn) error {
-		key := util.StrToBytes(name)
-		value, err := pc.get(txn, key)
+		sp, err := pc.get(txn, util.StrToBytes(name))
 		if err != nil {
 			return err
 		}
-		sp := bytes.Split(value, Sep)
-		if len(sp) == 0 {
-			return badger.ErrKeyNotFound
-		}
 		res = make([]string, 0, len(sp))
 		for _, b := range sp {
 			res = append(res, util.BytesToStr(pc.decodeValue(b)))
@@ -104,43 +113,25 @@ func (pc *PathCache) Get(name string) ([]string, error) {
 
 // GetLast if not found, return os.ErrNotExist
 func (pc *PathCache) GetLast(name string) (string, error) {
-	var res string
-	err := pc.db.View(func(txn *badger.Txn) error {
-		key := util.StrToBytes(name)
-		value, err := pc.get(txn, key)
-		if err != nil {
-			return err
-		}
-		if idx := bytes.LastIndexByte(value, Sep[0]); idx > 0 {
-			res = util.BytesToStr(pc.decodeValue(value[idx+1:]))
-			return nil
-		}
-		return badger.ErrKeyNotFound
-	})
-	if err == badger.ErrKeyNotFound {
-		err = os.ErrNotExist
+	paths, err := pc.Get(name)
+	if err != nil {
+		return "", err
 	}
-	return res, err
+	return paths[len(paths)-1], nil
 }
 
 func (pc *PathCache) Remove(name, path string) error {
 	err := pc.db.Update(func(txn *badger.Txn) error {
 		key := util.StrToBytes(name)
-		val, err := pc.get(txn, key)
+		origin, err := pc.get(txn, key)
 		if err != nil {
 			return err
 		}
-		before, after, ok := bytes.Cut(val, pc.encodeValue(util.StrToBytes(path)))
-		if !ok {
-			return badger.ErrKeyNotFound
-		}
-		before = bytes.TrimSuffix(before, Sep)
-		after = bytes.TrimPrefix(after, Sep)
-		// not use bytes.Join to avoid memory allocating and copy
-		if len(before) > 0 {
-			after = append(append(before, Sep...), after...)
+		left := without(origin, pc.encodeValue(util.StrToBytes(path)))
+		if len(left) == 0 {
+			return txn.Delete(key)
 		}
-		return txn.Set(key, after)
+		return txn.Set(key, bytes.Join(left, Sep))
 	})
 	if err == badger.ErrKeyNotFound {
 		err = nil
-- 
2.43.0


From a6db90081e6cc3b19ff876bbf71ee2bf80efeffb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:18:04 +0000
Subject: [PATCH 26/80] fix: the padding reader passes on errors of a broken
 source instead of padding what came before

---
 src/common/system/disk/aligend_reader.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/common/system/disk/aligend_reader.go b/src/common/system/disk/aligend_reader.go
index 5e24aa7..6f1a32d 100644
--- a/src/common/system/disk/aligend_reader.go
+++ b/src/common/system/disk/aligend_reader.go
@@ -35,9 +35,17 @@ func NewAlignedReader(rd io.Reader) *AlignedReader {
 
 func (ar *AlignedReader) Read(p []byte) (n int, err error) {
 	length := len(p)
-	n, err = io.ReadFull(ar.Reader, p)
-	if err == io.ErrUnexpectedEOF {
-		err = io.EOF
+	for n < length && err == nil {
+		var nr int
+		nr, err = ar.Reader.Read(p[n:])
+		n += nr
+	}
+	if n == length {
+		return n, nil
+	}
+	if err != io.EOF {
+		// broken data is never padded, otherwise it can't be told from complete data
+		return n - n%directio.BlockSize, err
 	}
 	// padding zero if needed
 	paddingEnd := math.MinInt(length, AlignedSize(n))
-- 
2.43.0


From 182a7d12ce6d80611ca8a0465a9c5c8e917d4ffc Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:18:49 +0000
Subject: [PATCH 27/80] fix: objects of any size are readable with direct I/O,
 compressed ones from any offset

---
 .../internal/usecase/service/objects_service.go       | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 9a10a99..dbb7f09 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -146,7 +146,8 @@ func GetFile(fullPath string, offset, size int64, writer io.Writer) error {
 			return err
 		}
 	}
-	bufSize := math.MinInt(int(size), 8*cst.OS.PageSize)
+	// size of each direct read must be a multiple of 4KB
+	bufSize := math.MinInt(disk.AlignedSize(int(size)), 8*cst.OS.PageSize)
 	_, err = io.CopyBuffer(writer, disk.LimitReader(file, size), disk.AlignedBlock(bufSize))
 	return err
 }
@@ -251,13 +252,17 @@ func GetFileCompress(fullPath string, offset, size int64, writer io.Writer) erro
 		return err
 	}
 	defer file.Close()
+	reader := s2.NewReader(file)
 	if offset > 0 {
-		if _, err = file.Seek(offset, io.SeekStart); err != nil {
+		// offset refers to the uncompressed content
+		if _, err = io.CopyN(io.Discard, reader, offset); err == io.EOF {
+			return nil
+		} else if err != nil {
 			return err
 		}
 	}
 	bufSize := math.MinNumber(8*cst.OS.PageSize, int(size))
-	_, err = io.CopyBuffer(writer, io.LimitReader(s2.NewReader(file), size), make([]byte, bufSize))
+	_, err = io.CopyBuffer(writer, io.LimitReader(reader, size), make([]byte, bufSize))
 	return err
 }
 
-- 
2.43.0


From fa78f422ee4ef1181c69ff3aea680920f627eac4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 28/80] fix: an object becomes visible only when it is
 complete, and its index, marks, cache and capacity change together with it

---
 .../controller/http/objects/objects_cache.go  |  15 +-
 .../controller/http/objects/objects_rest.go   |  57 ++++---
 .../internal/controller/http/router.go        |  10 +-
 .../internal/usecase/service/name_lock.go     |  38 +++++
 .../usecase/service/objects_service.go        | 159 ++++++++++++------
 5 files changed, 200 insertions(+), 79 deletions(-)
 create mode 100644 src/objectserver/internal/usecase/service/name_lock.go

diff --git a/src/objectserver/internal/controller/http/objects/objects_cache.go b/src/objectserver/internal/controller/http/objects/objects_cache.go
index 7017b1a..8cb6092 100644
--- a/src/objectserver/internal/controller/http/objects/objects_cache.go
+++ b/src/objectserver/internal/controller/http/objects/objects_cache.go
@@ -2,15 +2,26 @@ package objects
 
 import (
 	"common/logs"
+	"common/response"
 	"net/http"
+	"objectserver/internal/entity"
 	"objectserver/internal/usecase/pool"
 
 	"github.com/gin-gonic/gin"
+	"github.com/gin-gonic/gin/binding"
 )
 
 func GetFromCache(g *gin.Context) {
-	name := g.Param("name")
-	if bt, ok := pool.Cache.HasGet(name); ok {
+	req := &getReq{}
+	if err := entity.BindAll(g, req, binding.Uri, binding.Query, binding.Header); err != nil {
+		response.FailErr(err, g)
+		g.Abort()
+		return
+	}
+	name, offset := req.Name, req.Offset()
+	// only a part of the object may be cached
+	if bt, ok := pool.Cache.HasGet(name); ok && offset >= 0 && req.Size >= 0 && offset <= int64(len(bt))-req.Size {
+		bt = bt[offset : offset+req.Size]
 		if _, e := g.Writer.Write(bt); e != nil {
 			logs.Std().Debugf("match file cache %v, but written to response error: %v", name, e)
 			g.AbortWithStatus(http.StatusInternalServerError)
diff --git a/src/objectserver/internal/controller/http/objects/objects_rest.go b/src/objectserver/internal/controller/http/objects/objects_rest.go
index 605b13f..20d5db9 100644
--- a/src/objectserver/internal/controller/http/objects/objects_rest.go
+++ b/src/objectserver/internal/controller/http/objects/objects_rest.go
@@ -2,7 +2,7 @@ package objects
 
 import (
 	"bytes"
-	"common/graceful"
+	"common/logs"
 	"common/request"
 	"common/response"
 	"io"
@@ -34,22 +34,20 @@ func Put(c *gin.Context) {
 		cache.Grow(int(c.Request.ContentLength))
 		reader = io.TeeReader(c.Request.Body, &cache)
 	}
-	if err := service.Put(req.Name, reader, req.Compress); err != nil {
+	changes := service.ObjectChanges()
+	stored, err := service.Put(req.Name, reader, req.Compress)
+	if err != nil {
 		response.FailErr(err, c)
 		return
 	}
-	if cache.Len() > 0 {
-		go func() {
-			defer graceful.Recover()
-			pool.Cache.Set(req.Name, cache.Bytes())
-		}()
+	if stored && cache.Len() > 0 {
+		service.CacheObject(req.Name, changes, cache.Bytes())
 	}
 	response.Ok(c)
 }
 
 func Delete(c *gin.Context) {
 	name := c.Param("name")
-	pool.Cache.Delete(name)
 	if err := service.Delete(name); err != nil {
 		response.FailErr(err, c)
 		return
@@ -57,37 +55,48 @@ func Delete(c *gin.Context) {
 	c.Status(http.StatusNoContent)
 }
 
+type getReq struct {
+	Name     string `uri:"name"`
+	Range    string `header:"range"`
+	Size     int64  `header:"size" binding:"required"`
+	Compress bool   `form:"compress"`
+}
+
+// Offset is the first byte to read
+func (r *getReq) Offset() int64 {
+	var rg request.Range
+	if ok := rg.ConvertFrom(r.Range); ok {
+		return rg.FirstBytes().First
+	}
+	return 0
+}
+
 func Get(c *gin.Context) {
-	req := &struct {
-		Name     string `uri:"name"`
-		Range    string `header:"range"`
-		Size     int64  `header:"size" binding:"required"`
-		Compress bool   `form:"compress"`
-	}{}
+	req := &getReq{}
 	if err := entity.BindAll(c, req, binding.Uri, binding.Query, binding.Header); err != nil {
 		response.FailErr(err, c)
 		return
 	}
-	var rg request.Range
-	var offset int64
-	if ok := rg.ConvertFrom(req.Range); ok {
-		offset = rg.FirstBytes().First
-	}
+	offset := req.Offset()
 	var writer io.Writer = c.Writer
 	var buf bytes.Buffer
-	if uint64(req.Size) <= pool.Config.Cache.MaxItemSize.Byte() {
+	changes := service.ObjectChanges()
+	// cache always starts at the begin of object
+	if offset == 0 && uint64(req.Size) <= pool.Config.Cache.MaxItemSize.Byte() {
 		buf.Grow(int(req.Size))
 		writer = io.MultiWriter(c.Writer, &buf)
 	}
 	if err := service.Get(req.Name, offset, req.Size, req.Compress, writer); err != nil {
+		if c.Writer.Written() {
+			logs.Std().Errorf("read object %s err: %s", req.Name, err)
+			// too late to response an error, only a broken response tells it
+			panic(http.ErrAbortHandler)
+		}
 		response.FailErr(err, c)
 		return
 	}
 	if buf.Len() > 0 {
-		go func() {
-			defer graceful.Recover()
-			pool.Cache.Set(req.Name, buf.Bytes())
-		}()
+		service.CacheObject(req.Name, changes, buf.Bytes())
 	}
 	c.Status(http.StatusOK)
 }
diff --git a/src/objectserver/internal/controller/http/router.go b/src/objectserver/internal/controller/http/router.go
index 8ff46b6..9a772e4 100644
--- a/src/objectserver/internal/controller/http/router.go
+++ b/src/objectserver/internal/controller/http/router.go
@@ -20,7 +20,7 @@ type Server struct {
 
 func NewHttpServer(port string, grpcServer *grpc.Server) *Server {
 	r := gin.New()
-	r.Use(gin.LoggerWithWriter(logs.Std().Out), gin.RecoveryWithWriter(logs.Std().Out))
+	r.Use(gin.LoggerWithWriter(logs.Std().Out), gin.RecoveryWithWriter(logs.Std().Out, recovered))
 	r.GET("/objects/:name", objects.GetFromCache, objects.Get)
 	r.HEAD("/objects/:name", objects.Head)
 	r.PUT("/objects/:name", temp.FilterEmptyRequest, objects.Put)
@@ -42,6 +42,14 @@ func NewHttpServer(port string, grpcServer *grpc.Server) *Server {
 	}, grpcServer}
 }
 
+func recovered(c *gin.Context, err any) {
+	// the connection must be closed by http server
+	if err == http.ErrAbortHandler {
+		panic(err)
+	}
+	c.AbortWithStatus(http.StatusInternalServerError)
+}
+
 func (h *Server) ListenAndServe() error {
 	logs.Std().Infof("http server listen on: %s", h.Addr)
 	return h.Server.ListenAndServe()
diff --git a/src/objectserver/internal/usecase/service/name_lock.go b/src/objectserver/internal/usecase/service/name_lock.go
new file mode 100644
index 0000000..c21ead0
--- /dev/null
+++ b/src/objectserver/internal/usecase/service/name_lock.go
@@ -0,0 +1,38 @@
+package service
+
+import "sync"
+
+// nameLocks holds a lock for every name in use
+type nameLocks struct {
+	mu    sync.Mutex
+	locks map[string]*nameLock
+}
+
+type nameLock struct {
+	sync.Mutex
+	users int
+}
+
+// Lock the name until the returned function is called
+func (n *nameLocks) Lock(name string) (unlock func()) {
+	n.mu.Lock()
+	if n.locks == nil {
+		n.locks = make(map[string]*nameLock)
+	}
+	l, ok := n.locks[name]
+	if !ok {
+		l = &nameLock{}
+		n.locks[name] = l
+	}
+	l.users++
+	n.mu.Unlock()
+	l.Lock()
+	return func() {
+		l.Unlock()
+		n.mu.Lock()
+		defer n.mu.Unlock()
+		if l.users--; l.users == 0 {
+			delete(n.locks, name)
+		}
+	}
+}
diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index dbb7f09..564f161 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -15,6 +15,7 @@ import (
 	global "objectserver/internal/usecase/pool"
 	"os"
 	"path/filepath"
+	"sync/atomic"
 
 	"github.com/klauspost/compress/s2"
 )
@@ -23,42 +24,49 @@ const (
 	LocateKeyPrefix = "LocateCache#"
 )
 
+// objectLocks keeps files, path-db, capacity and cache of an object in step with each other
+var objectLocks nameLocks
+
 // Exist check if the object exists. pass to ExistPath
 func Exist(name string) bool {
 	if global.Cache.Has(LocateKeyPrefix+name) || global.Cache.Has(name) {
 		return true
 	}
-	realPath, ok := FindRealStoragePath(name)
-	if !ok {
-		return false
-	}
-	if ExistPath(realPath) {
-		MarkExist(name)
-		return true
-	} else {
-		// remove this no existed path from path-db
-		go func() {
-			defer graceful.Recover()
-			util.LogErr(global.PathDB.Remove(name, realPath))
-		}()
+	defer objectLocks.Lock(name)()
+	return exist(name)
+}
+
+// exist is Exist for who holds the lock of the object
+func exist(name string) bool {
+	if _, ok := FindRealStoragePath(name); !ok {
 		return false
 	}
+	MarkExist(name)
+	return true
 }
 
 // FindRealStoragePath find storage path with real mount point of this file
 func FindRealStoragePath(fileName string) (string, bool) {
-	path, err := global.PathDB.GetLast(fileName)
-	if err != nil {
-		path, err = global.DriverManager.FindMountPath(filepath.Join(global.Config.StoragePath, fileName))
+	for {
+		path, err := global.PathDB.GetLast(fileName)
 		if err != nil {
-			return "", false
+			break
+		}
+		if ExistPath(path) {
+			return path, true
+		}
+		// remove this no existed path from path-db
+		if err = global.PathDB.Remove(fileName, path); err != nil {
+			logs.Std().Errorf("remove path %s of %s: %s", path, fileName, err)
+			break
 		}
-		// save path to path-cache
-		go func() {
-			defer graceful.Recover()
-			util.LogErr(global.PathDB.Put(fileName, path))
-		}()
 	}
+	path, err := global.DriverManager.FindMountPath(filepath.Join(global.Config.StoragePath, fileName))
+	if err != nil {
+		return "", false
+	}
+	// save path to path-cache
+	util.LogErr(global.PathDB.Put(fileName, path))
 	return path, true
 }
 
@@ -78,50 +86,83 @@ func UnMarkExist(name string) {
 	global.Cache.Delete(LocateKeyPrefix + name)
 }
 
-// Put save object to storage path
-func Put(fileName string, fileStream io.Reader, compress bool) (err error) {
+// CacheObject save content read or stored after changes of the object were seen, unless it has been changed since
+func CacheObject(name string, changes uint64, content []byte) {
+	defer objectLocks.Lock(name)()
+	if ObjectChanges() == changes && exist(name) {
+		global.Cache.Set(name, content)
+	}
+}
+
+var objectChanges atomic.Uint64
+
+// ObjectChanges changes whenever an object is removed or replaced
+func ObjectChanges() uint64 {
+	return objectChanges.Load()
+}
+
+// Put save object to storage path. stored is false if the object exists already.
+func Put(fileName string, fileStream io.Reader, compress bool) (stored bool, err error) {
 	if Exist(fileName) {
 		return
 	}
 
 	mp := global.DriverManager.SelectMountPointFallback(global.Config.BaseMountPoint)
-	fullPath := filepath.Join(mp, global.Config.StoragePath, fileName)
+	// an object must be complete before it can be seen
+	tempPath := filepath.Join(mp, global.Config.TempPath, GenerateTempID())
 
-	var size int64
 	if compress {
-		size, err = WriteFileCompress(fullPath, fileStream)
+		_, err = WriteFileCompress(tempPath, fileStream)
 	} else {
-		size, err = WriteFile(fullPath, fileStream)
+		_, err = WriteFile(tempPath, fileStream)
 	}
-	if err != nil {
-		return
+	if err == nil {
+		stored, err = publish(tempPath, filepath.Join(mp, global.Config.StoragePath, fileName))
+	}
+	if !stored {
+		_, inner := DeleteFile(tempPath, "")
+		util.LogErrWithPre("remove temp file", inner)
 	}
-	go func() {
-		defer graceful.Recover()
-		global.ObjectCap.AddCap(size)
-		util.LogErr(global.PathDB.Put(fileName, fullPath))
-		MarkExist(fileName)
-	}()
 	return
 }
 
+// publish move the completely written file to fullPath, whose last element is the name of object.
+// published is false if the object exists already.
+func publish(tempPath, fullPath string) (published bool, err error) {
+	fileName := filepath.Base(fullPath)
+	defer objectLocks.Lock(fileName)()
+	if exist(fileName) {
+		return false, nil
+	}
+	info, err := os.Stat(tempPath)
+	if err != nil {
+		return false, err
+	}
+	if err = os.Rename(tempPath, fullPath); err != nil {
+		return false, err
+	}
+	global.ObjectCap.AddCap(info.Size())
+	util.LogErr(global.PathDB.Put(fileName, fullPath))
+	MarkExist(fileName)
+	return true, nil
+}
+
 // Get read object to writer with provided size. pass to GetFile
 func Get(name string, offset, size int64, compress bool, writer io.Writer) (err error) {
 	if !Exist(name) {
 		return response.NewError(404, "object not found")
 	}
 
-	fullPath, _ := FindRealStoragePath(name)
+	fullPath, ok := FindRealStoragePath(name)
+	if !ok {
+		return response.NewError(404, "object not found")
+	}
 	if compress {
 		err = GetFileCompress(fullPath, offset, size, writer)
 	} else {
 		err = GetFile(fullPath, offset, size, writer)
 	}
-	if err != nil {
-		return err
-	}
-	MarkExist(name)
-	return nil
+	return err
 }
 
 // GetFile read file with provided size. offset corresponds to io.SeekStart.
@@ -154,27 +195,41 @@ func GetFile(fullPath string, offset, size int64, writer io.Writer) error {
 
 // Delete remove the object under the storage path
 func Delete(name string) error {
-	if !Exist(name) {
-		return nil
+	defer objectLocks.Lock(name)()
+	for {
+		fullPath, ok := FindRealStoragePath(name)
+		if !ok {
+			forget(name)
+			return nil
+		}
+		if err := deleteCopy(name, fullPath); err != nil {
+			return err
+		}
 	}
-	fullPath, _ := FindRealStoragePath(name)
+}
+
+// deleteCopy remove one file of the object for who holds the lock of the object
+func deleteCopy(name, fullPath string) error {
 	size, err := DeleteFile(fullPath, "")
 	if err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		global.ObjectCap.SubCap(size)
-		util.LogErrWithPre("path-db remove", global.PathDB.Remove(name, fullPath))
-		UnMarkExist(name)
-	}()
+	global.ObjectCap.SubCap(size)
+	util.LogErrWithPre("path-db remove", global.PathDB.Remove(name, fullPath))
 	return nil
 }
 
+// forget remove all about the object from cache for who holds the lock of the object
+func forget(name string) {
+	objectChanges.Add(1)
+	UnMarkExist(name)
+	global.Cache.Delete(name)
+}
+
 // DeleteFile will remove the file under the path. if file not exist, it will do nothing.
 func DeleteFile(path, name string) (int64, error) {
 	pt := filepath.Join(path, name)
-	info, err := os.Stat(path)
+	info, err := os.Stat(pt)
 	if os.IsNotExist(err) {
 		return 0, nil
 	}
-- 
2.43.0


From 3f68bdc8be7649c2e5c5620f5ca3b929837ced8c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:21:50 +0000
Subject: [PATCH 29/80] fix: parts of any size are appended to a temp exactly
 once or not at all, an aborted temp is removed

---
 .../controller/http/temp/temp_rest.go         | 32 +++++------
 src/objectserver/internal/entity/dto.go       |  1 +
 .../usecase/service/objects_service.go        |  8 ++-
 .../internal/usecase/service/temp_service.go  | 55 ++++++++++++++++++-
 4 files changed, 75 insertions(+), 21 deletions(-)

diff --git a/src/objectserver/internal/controller/http/temp/temp_rest.go b/src/objectserver/internal/controller/http/temp/temp_rest.go
index 5766d9e..37b5ff6 100644
--- a/src/objectserver/internal/controller/http/temp/temp_rest.go
+++ b/src/objectserver/internal/controller/http/temp/temp_rest.go
@@ -9,7 +9,6 @@ import (
 	"objectserver/internal/entity"
 	"objectserver/internal/usecase/pool"
 	"objectserver/internal/usecase/service"
-	"os"
 	"path/filepath"
 
 	"github.com/gin-gonic/gin"
@@ -18,15 +17,15 @@ import (
 
 func Patch(g *gin.Context) {
 	id := g.Param("name")
+	defer service.LockTemp(id)()
 	ti, ok := service.GetTempInfo(id)
 	if !ok {
 		response.BadRequestMsg("file has been removed", g)
 		return
 	}
-	// only allow last chuck may not be power of 4KB
 	// for reading from network-io, using too big buffer is not wise.
 	bufSize := xmath.MinInt(int(g.Request.ContentLength), 2*cst.OS.PageSize)
-	if _, err := service.AppendFileAligned(ti.FullPath, g.Request.Body, bufSize); err != nil {
+	if err := service.AppendTemp(ti, g.Request.Body, bufSize); err != nil {
 		response.FailErr(err, g)
 		return
 	}
@@ -35,7 +34,13 @@ func Patch(g *gin.Context) {
 
 func Delete(g *gin.Context) {
 	id := g.Param("name")
-	defer service.RemoveTempInfo(id)
+	defer service.LockTemp(id)()
+	if ti, ok := service.GetTempInfo(id); ok {
+		if err := service.RemoveTemp(ti); err != nil {
+			response.FailErr(err, g)
+			return
+		}
+	}
 	response.Ok(g)
 }
 
@@ -90,19 +95,8 @@ func Head(g *gin.Context) {
 		g.Status(http.StatusNotFound)
 		return
 	}
-	fi, err := os.Stat(ti.FullPath)
-	if os.IsNotExist(err) {
-		response.OkHeader(gin.H{"Size": 0}, g)
-		return
-	}
-	if err != nil {
-		response.FailErr(err, g)
-		return
-	}
-	// fi may have aligned padding if upload has finished
-	response.OkHeader(gin.H{
-		"Size": xmath.MinNumber(fi.Size(), ti.Size),
-	}, g)
+	// file may have aligned padding
+	response.OkHeader(gin.H{"Size": ti.Written}, g)
 }
 
 // Get 获取临时对象分片
@@ -121,6 +115,10 @@ func Get(g *gin.Context) {
 		return
 	}
 	if err := service.GetFile(ti.FullPath, 0, req.Size, g.Writer); err != nil {
+		if g.Writer.Written() {
+			// too late to response an error, only a broken response tells it
+			panic(http.ErrAbortHandler)
+		}
 		response.FailErr(err, g)
 		return
 	}
diff --git a/src/objectserver/internal/entity/dto.go b/src/objectserver/internal/entity/dto.go
index 8324986..f72f2d0 100644
--- a/src/objectserver/internal/entity/dto.go
+++ b/src/objectserver/internal/entity/dto.go
@@ -26,6 +26,7 @@ type TempInfo struct {
 	Name       string
 	Id         string
 	Size       int64
+	Written    int64 // Written is the exact size of appended data without padding
 	MountPoint string
 	FullPath   string
 }
diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 564f161..2d6696b 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -257,7 +257,7 @@ func WriteFileWithSize(fullPath string, curSize int64, fileStream io.Reader, buf
 	// paddingLen always gte 0 and lt 4096
 	pageSize := int64(cst.OS.PageSize)
 	paddingLen := fi.Size() - curSize
-	if paddingLen >= pageSize {
+	if paddingLen < 0 || paddingLen >= pageSize || fi.Size()%pageSize > 0 {
 		return 0, fmt.Errorf("err padding length %d", paddingLen)
 	}
 	if paddingLen > 0 {
@@ -265,7 +265,7 @@ func WriteFileWithSize(fullPath string, curSize int64, fileStream io.Reader, buf
 		if _, err = file.Seek(-pageSize, io.SeekEnd); err != nil {
 			return 0, err
 		}
-		bt := make([]byte, pageSize)
+		bt := disk.AlignedBlock(int(pageSize))
 		_, err = io.ReadFull(file, bt)
 		if err != nil {
 			return 0, fmt.Errorf("read tail 4KB err: %w", err)
@@ -278,8 +278,10 @@ func WriteFileWithSize(fullPath string, curSize int64, fileStream io.Reader, buf
 		if _, err = file.Seek(-pageSize, io.SeekEnd); err != nil {
 			return 0, err
 		}
+	} else if _, err = file.Seek(0, io.SeekEnd); err != nil {
+		return 0, err
 	}
-	return io.CopyBuffer(file, disk.PaddingReader(fileStream), disk.AlignedBlock(bufSize))
+	return io.CopyBuffer(file, disk.PaddingReader(fileStream), disk.AlignedBlock(disk.AlignedSize(bufSize)))
 }
 
 // AppendFileAligned will append data to file and work with DIO. make sure size of each write is a multiple of 4096 (except last)
diff --git a/src/objectserver/internal/usecase/service/temp_service.go b/src/objectserver/internal/usecase/service/temp_service.go
index d40e0da..9dc6b65 100644
--- a/src/objectserver/internal/usecase/service/temp_service.go
+++ b/src/objectserver/internal/usecase/service/temp_service.go
@@ -4,12 +4,16 @@ import (
 	"common/cache"
 	"common/graceful"
 	"common/logs"
+	"common/system/disk"
 	"common/util"
 	"context"
+	"errors"
 	"fmt"
 	"github.com/google/uuid"
+	"io"
 	"objectserver/internal/entity"
 	"objectserver/internal/usecase/pool"
+	"os"
 	"strings"
 )
 
@@ -29,6 +33,55 @@ func GenerateTempID() string {
 	return entity.TempKeyPrefix + uuid.NewString()
 }
 
+var tempLocks nameLocks
+
+// LockTemp must be held for changing the file or the info of a temp until the returned function is called
+func LockTemp(id string) (unlock func()) {
+	return tempLocks.Lock(id)
+}
+
+type countingReader struct {
+	io.Reader
+	n int64
+}
+
+func (r *countingReader) Read(p []byte) (n int, err error) {
+	n, err = r.Reader.Read(p)
+	r.n += int64(n)
+	return
+}
+
+// AppendTemp append a part of any size to the temp. Nothing is appended if it fails.
+func AppendTemp(ti *entity.TempInfo, part io.Reader, bufSize int) (err error) {
+	reader := &countingReader{Reader: part}
+	if _, err = WriteFileWithSize(ti.FullPath, ti.Written, reader, bufSize); err == nil {
+		appended := *ti
+		if appended.Written += reader.n; SetTempInfo(&appended) {
+			*ti = appended
+			return nil
+		}
+		err = errors.New("save temp info fails")
+	}
+	// remove what has been written, leaving only padding after the last part
+	inner := os.Truncate(ti.FullPath, ti.Written)
+	if inner == nil {
+		inner = os.Truncate(ti.FullPath, disk.AlignedSize64(ti.Written))
+	}
+	if inner != nil && !os.IsNotExist(inner) {
+		util.LogErrWithPre("restore temp file", inner)
+	}
+	return
+}
+
+// RemoveTemp remove the file and the info of the temp
+func RemoveTemp(ti *entity.TempInfo) error {
+	if _, err := DeleteFile(ti.FullPath, ""); err != nil {
+		return err
+	}
+	RemoveTempInfo(ti.Id)
+	return nil
+}
+
 // StartTempRemovalBackground start some temp file removal threads. watching the eviction of cache.
 // return cancel function.
 func StartTempRemovalBackground(cache cache.ICache, threadNum int) func() {
@@ -45,7 +98,7 @@ func StartTempRemovalBackground(cache cache.ICache, threadNum int) func() {
 				if strings.HasPrefix(entry.Key, entity.TempKeyPrefix) {
 					var ti entity.TempInfo
 					if ok := util.GobDecode(entry.Value, &ti); ok {
-						if _, err := DeleteFile(pool.Config.TempPath, ti.Id); err != nil {
+						if _, err := DeleteFile(ti.FullPath, ""); err != nil {
 							logger.Errorf("remove temp %v(name=%v) error, %v", ti.Id, ti.Name, err)
 							break
 						}
-- 
2.43.0


From 2d5e534ac3ae8a58f79eb217fa24c0feee57e596 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 30/80] fix: a commit with compression publishes the object
 only when it is complete and removes the temp

---
 .../controller/http/temp/temp_rest.go         |  1 +
 .../usecase/service/objects_service.go        | 72 ++++++++++---------
 2 files changed, 40 insertions(+), 33 deletions(-)

diff --git a/src/objectserver/internal/controller/http/temp/temp_rest.go b/src/objectserver/internal/controller/http/temp/temp_rest.go
index 37b5ff6..a2d2ffa 100644
--- a/src/objectserver/internal/controller/http/temp/temp_rest.go
+++ b/src/objectserver/internal/controller/http/temp/temp_rest.go
@@ -74,6 +74,7 @@ func Put(g *gin.Context) {
 		response.FailErr(err, g)
 		return
 	}
+	defer service.LockTemp(req.ID)()
 	ti, ok := service.GetTempInfo(req.ID)
 	if !ok {
 		response.BadRequestMsg("file has been removed", g)
diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 2d6696b..9f61e3d 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"common/cst"
 	"common/datasize"
-	"common/graceful"
 	"common/logs"
 	"common/response"
 	"common/system/disk"
@@ -120,8 +119,7 @@ func Put(fileName string, fileStream io.Reader, compress bool) (stored bool, err
 		stored, err = publish(tempPath, filepath.Join(mp, global.Config.StoragePath, fileName))
 	}
 	if !stored {
-		_, inner := DeleteFile(tempPath, "")
-		util.LogErrWithPre("remove temp file", inner)
+		_ = removeTempFile(tempPath)
 	}
 	return
 }
@@ -348,41 +346,49 @@ func WriteFileCompress(fullPath string, fileStream io.Reader) (int64, error) {
 func CommitFile(mountPoint, tmpName, fileName string, compress bool) error {
 	filePath := filepath.Join(mountPoint, global.Config.StoragePath, fileName)
 	tempPath := filepath.Join(mountPoint, global.Config.TempPath, tmpName)
-	if ExistPath(filePath) {
-		return nil
+	if Exist(fileName) {
+		return removeTempFile(tempPath)
 	}
-	if compress {
-		tmp, err := os.Open(tempPath)
-		if err != nil {
-			if os.IsNotExist(err) {
-				return response.NewError(404, "object not found")
-			}
-			return err
-		}
-		defer util.CloseAndLog(tmp)
-		tmpStat, err := tmp.Stat()
-		if err != nil {
-			return err
+	if _, err := os.Stat(tempPath); err != nil {
+		if os.IsNotExist(err) {
+			return response.NewError(404, "object not found")
 		}
-		bufSize := math.MinInt(4*datasize.MB.Int(), int(tmpStat.Size()))
-		_, err = AppendFileCompress(filePath, tmp, bufSize)
 		return err
-	} else {
-		if err := os.Rename(tempPath, filePath); err != nil {
-			if os.IsNotExist(err) {
-				return response.NewError(404, "object not found")
-			}
+	}
+	sourcePath := tempPath
+	if compress {
+		// an object must be complete before it can be seen
+		sourcePath = filepath.Join(mountPoint, global.Config.TempPath, GenerateTempID())
+		// does nothing if it has been published
+		defer removeTempFile(sourcePath)
+		if err := compressFile(tempPath, sourcePath); err != nil {
 			return err
 		}
 	}
+	if _, err := publish(sourcePath, filePath); err != nil {
+		return err
+	}
+	return removeTempFile(tempPath)
+}
 
-	go func() {
-		defer graceful.Recover()
-		if info, err := os.Stat(filePath); err == nil {
-			global.ObjectCap.AddCap(info.Size())
-			util.LogErr(global.PathDB.Put(fileName, filePath))
-			MarkExist(fileName)
-		}
-	}()
-	return nil
+func removeTempFile(path string) error {
+	_, err := DeleteFile(path, "")
+	util.LogErrWithPre("remove temp file", err)
+	return err
+}
+
+// compressFile save a compressed copy
+func compressFile(fullPath, compressedPath string) error {
+	file, err := os.Open(fullPath)
+	if err != nil {
+		return err
+	}
+	defer util.CloseAndLog(file)
+	stat, err := file.Stat()
+	if err != nil {
+		return err
+	}
+	bufSize := math.MinInt(4*datasize.MB.Int(), math.MaxInt(int(stat.Size()), 4*datasize.KB.Int()))
+	_, err = AppendFileCompress(compressedPath, file, bufSize)
+	return err
 }
-- 
2.43.0


From 092c297cb6513a517d0bff1f06a2567bb6cd9011 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:22:24 +0000
Subject: [PATCH 31/80] fix: directories are no part of the used capacity, and
 one broken disk does not hide the others

---
 src/objectserver/internal/usecase/service/common.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/objectserver/internal/usecase/service/common.go b/src/objectserver/internal/usecase/service/common.go
index 88fc5c6..49fdc54 100644
--- a/src/objectserver/internal/usecase/service/common.go
+++ b/src/objectserver/internal/usecase/service/common.go
@@ -18,18 +18,15 @@ func WarmUpLocateCache() {
 			}
 			fileName := info.Name()
 			// skip temp file
-			if strings.HasPrefix(fileName, entity.TempKeyPrefix) {
+			if info.IsDir() || strings.HasPrefix(fileName, entity.TempKeyPrefix) {
 				return nil
 			}
 			pool.ObjectCap.AddCap(info.Size())
-			if !info.IsDir() {
-				MarkExist(fileName)
-			}
+			MarkExist(fileName)
 			return nil
 		})
 		if err != nil {
 			logs.Std().Error(err)
-			return
 		}
 	}
 }
-- 
2.43.0


From bcc16e0a2dc0eb2618be8a5be3052d1dfb039645 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 32/80] fix: a migrated object is visible on the receiver only
 when it is complete, inside its storage, and is removed from the sender only
 then

---
 .../controller/grpc/migration_server.go       |  32 +++--
 .../usecase/service/migration_service.go      | 133 +++++++++++++-----
 .../usecase/service/objects_service.go        |  33 ++++-
 3 files changed, 150 insertions(+), 48 deletions(-)

diff --git a/src/objectserver/internal/controller/grpc/migration_server.go b/src/objectserver/internal/controller/grpc/migration_server.go
index c9b6327..3521cc8 100644
--- a/src/objectserver/internal/controller/grpc/migration_server.go
+++ b/src/objectserver/internal/controller/grpc/migration_server.go
@@ -12,6 +12,7 @@ import (
 	"objectserver/internal/usecase/service"
 	"os"
 	"sync"
+	"sync/atomic"
 
 	"google.golang.org/grpc"
 	"google.golang.org/grpc/codes"
@@ -28,25 +29,39 @@ func NewMigrationServer(service *service.MigrationService) *MigrationServer {
 }
 
 func (ms *MigrationServer) ReceiveData(stream pb.ObjectMigration_ReceiveDataServer) (err error) {
-	var file io.WriteCloser
+	var object *service.ReceivingObject
 	var data *pb.ObjectData
-	defer util.CloseAndLog(file)
+	// only a committed object stays
+	defer func() {
+		if object != nil {
+			object.Abort()
+		}
+	}()
 	logs.Std().Debug("start receive data...")
 	for {
 		data, err = stream.Recv()
 		if err == io.EOF {
-			return stream.SendMsg(&pb.Response{Success: true})
+			if object == nil {
+				err = errors.New("received no data")
+				break
+			}
+			committed := object
+			object = nil
+			if err = committed.Commit(); err != nil {
+				break
+			}
+			return stream.SendAndClose(&pb.Response{Success: true})
 		}
 		if err != nil {
 			break
 		}
 		logs.Std().Debugf("received filename chunk %s", data.FileName)
-		if file == nil {
+		if object == nil {
 			if data.FileName == "" {
 				err = errors.New("received FileName should not be empty")
 				break
 			}
-			if file, err = ms.Service.OpenFile(data.FileName, data.Size); err != nil {
+			if object, err = ms.Service.OpenObject(data.FileName, data.Size); err != nil {
 				if os.IsExist(err) {
 					logs.Std().Debugf("receive duplicate data %s success, close but send success result", data.FileName)
 					return stream.SendAndClose(&pb.Response{Success: true})
@@ -54,7 +69,7 @@ func (ms *MigrationServer) ReceiveData(stream pb.ObjectMigration_ReceiveDataServ
 				break
 			}
 		}
-		if _, err = file.Write(data.Data); err != nil {
+		if _, err = object.Write(data.Data); err != nil {
 			break
 		}
 	}
@@ -132,7 +147,7 @@ func (ms *MigrationServer) JoinCommand(context.Context, *pb.EmptyReq) (*pb.Respo
 		cliMap[k] = pb.NewObjectMigrationClient(cc)
 	}
 	wg := sync.WaitGroup{}
-	success := true
+	failed := atomic.Bool{}
 	// sending request to all servers
 	for k, v := range sizeMap {
 		wg.Add(1)
@@ -143,12 +158,13 @@ func (ms *MigrationServer) JoinCommand(context.Context, *pb.EmptyReq) (*pb.Respo
 				RequiredSize:  value,
 				TargetAddress: curLocate,
 			}); inner != nil {
-				success = false
+				failed.Store(true)
 				logs.Std().Error(inner)
 			}
 		}(k, v)
 	}
 	wg.Wait()
+	success := !failed.Load()
 	return &pb.Response{
 		Success: success,
 		Message: util.IfElse(success, "ok", "see logs for detail"),
diff --git a/src/objectserver/internal/usecase/service/migration_service.go b/src/objectserver/internal/usecase/service/migration_service.go
index 25e6041..f500de3 100644
--- a/src/objectserver/internal/usecase/service/migration_service.go
+++ b/src/objectserver/internal/usecase/service/migration_service.go
@@ -19,6 +19,7 @@ import (
 	"math"
 	"net/http"
 	"objectserver/internal/db"
+	"objectserver/internal/entity"
 	"objectserver/internal/usecase/pool"
 	"objectserver/internal/usecase/webapi"
 	"os"
@@ -114,14 +115,18 @@ func (ms *MigrationService) writeStream(stream pb.ObjectMigration_ReceiveDataCli
 		}
 	}()
 	var n int
-	buf := make([]byte, xmath.MinNumber(size, int64(4*datasize.MB)))
-	for {
+	buf := make([]byte, xmath.MaxNumber(xmath.MinNumber(size, int64(4*datasize.MB)), 1))
+	for first := true; ; first = false {
 		n, err = file.Read(buf)
-		if err == io.EOF {
+		// an empty file must be sent as well
+		if err == io.EOF && !first {
 			break
 		}
+		if err == io.EOF {
+			err = nil
+		}
 		if err != nil {
-			return fmt.Errorf("read file %s err: %s", name, err)
+			return fmt.Errorf("read file %s err: %w", name, err)
 		}
 		if err = stream.Send(&pb.ObjectData{
 			FileName: name,
@@ -187,19 +192,20 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 	success := true
 	dg := util.LimitDoneGroup(128)
 	go func() {
-		defer graceful.Recover(func(string) { success = false })
 		defer dg.Close()
+		defer dg.Wait()
+		defer graceful.Recover(func(msg string) { dg.Errors(errors.New(msg)) })
 		cur := slices.First(addrs)
 		slices.RemoveFirst(&addrs)
 		leftSize := sizeMap[cur]
-		var err error
 		for _, mp := range pool.DriverManager.GetAllMountPoint() {
-			err = filepath.Walk(filepath.Join(mp, pool.Config.StoragePath), func(path string, info fs.FileInfo, err error) error {
+			err := filepath.Walk(filepath.Join(mp, pool.Config.StoragePath), func(path string, info fs.FileInfo, err error) error {
 				if err != nil {
 					msLog.Errorf("walk path %s err: %s, will skip this path", path, err)
 					return nil
 				}
-				if info.IsDir() {
+				// skip temp file
+				if info.IsDir() || strings.HasPrefix(info.Name(), entity.TempKeyPrefix) {
 					return nil
 				}
 				client := clientMap[cur]
@@ -215,15 +221,11 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 						dg.Errors(inner)
 						return
 					}
-					// remove file async if transfer success
-					go func() {
-						defer graceful.Recover()
-						metric[toAddr].Add(1)
-						// remove local file
-						if inner := Delete(info.Name()); inner != nil {
-							msLog.Errorf("migrate %s success, but delete fail: %s", path, err)
-						}
-					}()
+					metric[toAddr].Add(1)
+					// remove local file if transfer success
+					if inner := deleteMoved(info.Name(), path); inner != nil {
+						msLog.Errorf("migrate %s success, but delete fail: %s", path, inner)
+					}
 				}(cur)
 				// switch to next server if already exceeds left size
 				if leftSize -= info.Size(); leftSize <= 0 {
@@ -244,11 +246,6 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 				dg.Errors(err)
 			}
 		}
-		dg.Wait()
-		if err != nil && err != io.EOF {
-			dg.Errors(err)
-			return
-		}
 	}()
 	for err := range dg.WaitError() {
 		msLog.Error(err)
@@ -259,10 +256,16 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 		resultStr.WriteString(fmt.Sprintf("\t'%s': %d\n", k, v.Load()))
 	}
 	msLog.Infof("migration result (nums of success files):\n%s", resultStr.String())
-	return util.IfElse(success, nil, fmt.Errorf("migration fail, see logs for detail"))
+	if !success {
+		return fmt.Errorf("migration fail, see logs for detail")
+	}
+	return nil
 }
 
 func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
+	if !validFileName(data.FileName) {
+		return fmt.Errorf("invalid file name '%s'", data.FileName)
+	}
 	// check file existed
 	realPath, ok := FindRealStoragePath(data.FileName)
 	if !ok {
@@ -275,13 +278,14 @@ func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
 	if statInfo.Size() != data.Size {
 		return fmt.Errorf("file %s size excpect %d, actual %d", data.FileName, data.Size, statInfo.Size())
 	}
-	// add to capacity db
-	pool.ObjectCap.AddCap(data.Size)
+	idx := strings.LastIndexByte(data.FileName, '.')
+	if idx < 0 {
+		return fmt.Errorf("file %s is not an object shard", data.FileName)
+	}
 	newLoc, ok := pool.Discovery.GetService(pool.Config.Registry.Name, pool.Config.Registry.SID())
 	if !ok {
 		return fmt.Errorf("server unregister yet")
 	}
-	idx := strings.LastIndexByte(data.FileName, '.')
 	seq := util.ToInt(data.FileName[idx+1:])
 	hash := data.FileName[:idx]
 	// get metadata locations of file
@@ -315,22 +319,73 @@ func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
 	return nil
 }
 
-func (ms *MigrationService) OpenFile(name string, size int64) (*os.File, error) {
-	path, ok := FindRealStoragePath(name)
-	if !ok {
-		path = filepath.Join(pool.DriverManager.SelectMountPointFallback(pool.Config.BaseMountPoint), pool.Config.StoragePath, name)
-		util.LogErrWithPre("path-cache update", pool.PathDB.Put(name, path))
+// ReceivingObject is an object being received, which is visible only after Commit
+type ReceivingObject struct {
+	name     string
+	size     int64
+	tempPath string
+	fullPath string
+	file     *os.File
+}
+
+// validFileName tells whether the name received from others is a single path element under the storage path
+func validFileName(name string) bool {
+	return name != "." && name != ".." && name == filepath.Base(name) && !strings.HasPrefix(name, entity.TempKeyPrefix)
+}
+
+// OpenObject starts receiving an object. returns os.ErrExist if the object exists already
+func (ms *MigrationService) OpenObject(name string, size int64) (*ReceivingObject, error) {
+	if !validFileName(name) {
+		return nil, fmt.Errorf("invalid file name '%s'", name)
 	}
-	stat, err := os.Stat(path)
-	if err == nil {
+	path, ok := FindRealStoragePath(name)
+	if ok {
 		// if size equals, see as existed
-		if stat.Size() == size {
+		if stat, err := os.Stat(path); err == nil && stat.Size() == size {
 			return nil, os.ErrExist
 		}
-		// some file may migrate failure. remove it if exists.
-		if err = os.Remove(path); err != nil {
-			return nil, err
-		}
 	}
-	return os.OpenFile(path, os.O_APPEND|os.O_WRONLY|os.O_CREATE, cst.OS.ModeUser)
+	mp := pool.DriverManager.SelectMountPointFallback(pool.Config.BaseMountPoint)
+	tempPath := filepath.Join(mp, pool.Config.TempPath, GenerateTempID())
+	file, err := os.OpenFile(tempPath, os.O_WRONLY|os.O_CREATE|os.O_EXCL, cst.OS.ModeUser)
+	if err != nil {
+		return nil, err
+	}
+	return &ReceivingObject{
+		name:     name,
+		size:     size,
+		tempPath: tempPath,
+		fullPath: filepath.Join(mp, pool.Config.StoragePath, name),
+		file:     file,
+	}, nil
+}
+
+func (r *ReceivingObject) Write(p []byte) (int, error) {
+	return r.file.Write(p)
+}
+
+// Abort removes what has been received
+func (r *ReceivingObject) Abort() {
+	util.LogErr(r.file.Close())
+	_ = removeTempFile(r.tempPath)
+}
+
+// Commit makes the object visible if it is complete
+func (r *ReceivingObject) Commit() error {
+	stat, err := r.file.Stat()
+	if err != nil {
+		r.Abort()
+		return err
+	}
+	if stat.Size() != r.size {
+		r.Abort()
+		return fmt.Errorf("file %s size expect %d, actual %d", r.name, r.size, stat.Size())
+	}
+	if err = r.file.Close(); err == nil {
+		err = replace(r.tempPath, r.fullPath)
+	}
+	if err != nil {
+		_ = removeTempFile(r.tempPath)
+	}
+	return err
 }
diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 9f61e3d..a43e93f 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -127,8 +127,13 @@ func Put(fileName string, fileStream io.Reader, compress bool) (stored bool, err
 // publish move the completely written file to fullPath, whose last element is the name of object.
 // published is false if the object exists already.
 func publish(tempPath, fullPath string) (published bool, err error) {
+	defer objectLocks.Lock(filepath.Base(fullPath))()
+	return publishLocked(tempPath, fullPath)
+}
+
+// publishLocked is publish for who holds the lock of the object
+func publishLocked(tempPath, fullPath string) (published bool, err error) {
 	fileName := filepath.Base(fullPath)
-	defer objectLocks.Lock(fileName)()
 	if exist(fileName) {
 		return false, nil
 	}
@@ -145,6 +150,17 @@ func publish(tempPath, fullPath string) (published bool, err error) {
 	return true, nil
 }
 
+// replace move the completely written file to fullPath as publish does, but replaces the object if it exists already
+func replace(tempPath, fullPath string) error {
+	fileName := filepath.Base(fullPath)
+	defer objectLocks.Lock(fileName)()
+	if err := deleteAll(fileName); err != nil {
+		return err
+	}
+	_, err := publishLocked(tempPath, fullPath)
+	return err
+}
+
 // Get read object to writer with provided size. pass to GetFile
 func Get(name string, offset, size int64, compress bool, writer io.Writer) (err error) {
 	if !Exist(name) {
@@ -194,6 +210,21 @@ func GetFile(fullPath string, offset, size int64, writer io.Writer) error {
 // Delete remove the object under the storage path
 func Delete(name string) error {
 	defer objectLocks.Lock(name)()
+	return deleteAll(name)
+}
+
+// deleteMoved remove one file of the object, which has been moved to another server
+func deleteMoved(name, fullPath string) error {
+	defer objectLocks.Lock(name)()
+	if err := deleteCopy(name, fullPath); err != nil {
+		return err
+	}
+	forget(name)
+	return nil
+}
+
+// deleteAll is Delete for who holds the lock of the object
+func deleteAll(name string) error {
 	for {
 		fullPath, ok := FindRealStoragePath(name)
 		if !ok {
-- 
2.43.0


From 2aecdcac5cc0b9e6552d516a4cb69dd514258107 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 33/80] fix: choosing a disk does not reorder the shared disk
 list, and never picks a full disk while another has space

---
 .../usecase/component/driver_balancer.go      | 26 +++++++++++++------
 .../usecase/component/driver_manager.go       | 23 +++++++++++-----
 2 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/src/objectserver/internal/usecase/component/driver_balancer.go b/src/objectserver/internal/usecase/component/driver_balancer.go
index fc3912c..caba485 100644
--- a/src/objectserver/internal/usecase/component/driver_balancer.go
+++ b/src/objectserver/internal/usecase/component/driver_balancer.go
@@ -5,7 +5,7 @@ import (
 	"common/util/slices"
 	"errors"
 	"math"
-	"sort"
+	"sync"
 )
 
 type DriverBalancer interface {
@@ -22,13 +22,14 @@ func (sf *spaceFirstBalancer) Select(drivers []*Driver) (*Driver, error) {
 	if len(drivers) == 0 {
 		return nil, errors.New("non drivers available")
 	}
-	sort.Slice(drivers, func(i, j int) bool {
-		return drivers[i].FreeSpace < drivers[j].FreeSpace
-	})
-	return slices.Last(drivers), nil
+	// drivers is shared, it must not be sorted
+	return slices.Extremal(drivers, func(max, cur *Driver) bool {
+		return cur.FreeSpace > max.FreeSpace
+	}), nil
 }
 
 type spaceWeightedBalancer struct {
+	mu       sync.Mutex
 	weighted map[string]datasize.DataSize
 	factor   datasize.DataSize
 }
@@ -48,17 +49,26 @@ func (sw *spaceWeightedBalancer) initFactor(drivers []*Driver) {
 	sw.factor = datasize.DataSize(math.Ceil(avg))
 }
 
+// weightedSpace is the free space reduced by the weight. The free space may have shrunk below the weight.
+func (sw *spaceWeightedBalancer) weightedSpace(d *Driver) datasize.DataSize {
+	if w := sw.weighted[d.MountPoint]; w < d.FreeSpace {
+		return d.FreeSpace - w
+	}
+	return 0
+}
+
 func (sw *spaceWeightedBalancer) Select(drivers []*Driver) (*Driver, error) {
 	if len(drivers) == 0 {
 		return nil, errors.New("non drivers available")
 	}
+	sw.mu.Lock()
+	defer sw.mu.Unlock()
 	if sw.factor == 0 {
 		sw.initFactor(drivers)
 	}
 	last := slices.Extremal(drivers, func(max, cur *Driver) bool {
-		w1 := sw.weighted[max.MountPoint]
-		w2 := sw.weighted[cur.MountPoint]
-		return cur.FreeSpace-w2 > max.FreeSpace-w1
+		s1, s2 := sw.weightedSpace(max), sw.weightedSpace(cur)
+		return s2 > s1 || s2 == s1 && cur.FreeSpace > max.FreeSpace
 	})
 	if sw.weighted[last.MountPoint] += sw.factor; sw.weighted[last.MountPoint] > last.FreeSpace {
 		sw.weighted[last.MountPoint] /= sw.factor
diff --git a/src/objectserver/internal/usecase/component/driver_manager.go b/src/objectserver/internal/usecase/component/driver_manager.go
index 535d6ec..e16b6a9 100644
--- a/src/objectserver/internal/usecase/component/driver_manager.go
+++ b/src/objectserver/internal/usecase/component/driver_manager.go
@@ -10,6 +10,7 @@ import (
 	"context"
 	"os"
 	"path/filepath"
+	"sync"
 	"time"
 )
 
@@ -20,6 +21,7 @@ type Driver struct {
 }
 
 type DriverManager struct {
+	mu       sync.RWMutex // mu guards drivers, which is replaced but never changed
 	drivers  []*Driver
 	balancer DriverBalancer
 	Excludes set.Set
@@ -61,9 +63,17 @@ func (dm *DriverManager) Update() {
 	if len(info) == 0 {
 		logs.Std().Errorf("not found any availeble mountpoints!")
 	}
+	dm.mu.Lock()
+	defer dm.mu.Unlock()
 	dm.drivers = info
 }
 
+func (dm *DriverManager) allDrivers() []*Driver {
+	dm.mu.RLock()
+	defer dm.mu.RUnlock()
+	return dm.drivers
+}
+
 func (dm *DriverManager) StartAutoUpdate() (stop func()) {
 	ctx, cancel := context.WithCancel(context.Background())
 	stop = cancel
@@ -84,11 +94,11 @@ func (dm *DriverManager) StartAutoUpdate() (stop func()) {
 }
 
 func (dm *DriverManager) SelectDriver() (*Driver, error) {
-	return dm.balancer.Select(dm.drivers)
+	return dm.balancer.Select(dm.allDrivers())
 }
 
 func (dm *DriverManager) SelectMountPointFallback(fb string) string {
-	d, err := dm.balancer.Select(dm.drivers)
+	d, err := dm.balancer.Select(dm.allDrivers())
 	if err != nil {
 		return fb
 	}
@@ -96,7 +106,7 @@ func (dm *DriverManager) SelectMountPointFallback(fb string) string {
 }
 
 func (dm *DriverManager) IsPathExist(path string) bool {
-	for _, d := range dm.drivers {
+	for _, d := range dm.allDrivers() {
 		if _, err := os.Stat(filepath.Join(d.MountPoint, path)); !os.IsNotExist(err) {
 			return true
 		}
@@ -105,7 +115,7 @@ func (dm *DriverManager) IsPathExist(path string) bool {
 }
 
 func (dm *DriverManager) FindMountPath(path string) (string, error) {
-	for _, d := range dm.drivers {
+	for _, d := range dm.allDrivers() {
 		fullPath := filepath.Join(d.MountPoint, path)
 		if _, err := os.Stat(fullPath); !os.IsNotExist(err) {
 			return fullPath, nil
@@ -115,8 +125,9 @@ func (dm *DriverManager) FindMountPath(path string) (string, error) {
 }
 
 func (dm *DriverManager) GetAllMountPoint() []string {
-	res := make([]string, 0, len(dm.drivers))
-	for _, driver := range dm.drivers {
+	drivers := dm.allDrivers()
+	res := make([]string, 0, len(drivers))
+	for _, driver := range drivers {
 		res = append(res, driver.MountPoint)
 	}
 	return res
-- 
2.43.0


From 2e7228bc26109fcf3d744784c3525d1ac2c0152c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:26:34 +0000
Subject: [PATCH 34/80] fix: a joining server is never sent more than it lacks
 to the average

---
 .../internal/usecase/service/migration_service.go      | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/objectserver/internal/usecase/service/migration_service.go b/src/objectserver/internal/usecase/service/migration_service.go
index f500de3..6320e0a 100644
--- a/src/objectserver/internal/usecase/service/migration_service.go
+++ b/src/objectserver/internal/usecase/service/migration_service.go
@@ -80,9 +80,19 @@ func (ms *MigrationService) DeviationValues(join bool) (map[string]int64, error)
 	}
 	avg := int64(math.Ceil(total / float64(size)))
 	res := make(map[string]int64, len(capMap))
+	var sum int64
 	for k, v := range capMap {
 		if v = util.IfElse(join, v-avg, avg-v); v > 0 {
 			res[k] = v
+			sum += v
+		}
+	}
+	// others may be below the average too, the joining one takes no more than it lacks itself
+	if lack := avg - pool.ObjectCap.Capacity(); join && lack < sum {
+		for k, v := range res {
+			if res[k] = int64(float64(v) / float64(sum) * float64(lack)); res[k] <= 0 {
+				delete(res, k)
+			}
 		}
 	}
 	if len(res) == 0 {
-- 
2.43.0


From 4d068a458f7b82e4d6d7e86fc3a595e521802f28 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:28:58 +0000
Subject: [PATCH 35/80] fix: a removed object is not served from the cache
 after others have seen it removed

---
 src/objectserver/internal/usecase/service/objects_service.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index a43e93f..3df08f4 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -239,6 +239,8 @@ func deleteAll(name string) error {
 
 // deleteCopy remove one file of the object for who holds the lock of the object
 func deleteCopy(name, fullPath string) error {
+	// reads must not find it in the cache when others have seen it removed
+	forget(name)
 	size, err := DeleteFile(fullPath, "")
 	if err != nil {
 		return err
-- 
2.43.0


From 3c5cae9bfb8a9a7e790b5bce00454f62284ae907 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 36/80] fix: a compressed store whose body breaks off fails
 instead of being taken for complete

---
 .../internal/usecase/service/objects_service.go          | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 3df08f4..4ea2304 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -363,11 +363,12 @@ func AppendFileCompress(fullPath string, fileStream io.Reader, bufSize int) (int
 	defer file.Close()
 	blockSize := math.MinInt(2*datasize.MB.Int(), math.MaxInt(bufSize, 4*datasize.KB.Int()))
 	wt := s2.NewWriter(file, s2.WriterBetterCompression(), s2.WriterBlockSize(blockSize))
-	n, err := io.CopyBuffer(wt, fileStream, make([]byte, bufSize))
-	if err != nil {
-		return n, err
+	// ReadFrom of s2.Writer takes io.ErrUnexpectedEOF, which a broken request body returns, for the end
+	n, err := io.CopyBuffer(struct{ io.Writer }{wt}, fileStream, make([]byte, bufSize))
+	if inner := wt.Close(); err == nil {
+		err = inner
 	}
-	return n, wt.Close()
+	return n, err
 }
 
 // WriteFileCompress append data to file compressing by s2 and work with COW
-- 
2.43.0


From f0fe5a62753861a299bfa92a0a8671f2f917981a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 37/80] fix: a starting discovery is not read by its watchers
 before it is set up

---
 src/common/registry/etcd_discovery.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/registry/etcd_discovery.go b/src/common/registry/etcd_discovery.go
index 9efa974..9d466b4 100644
--- a/src/common/registry/etcd_discovery.go
+++ b/src/common/registry/etcd_discovery.go
@@ -30,13 +30,16 @@ func NewEtcdDiscovery(cli *clientv3.Client, cfg *Config) *EtcdDiscovery {
 		context:  ctx,
 		Close:    cancel,
 	}
+	// the map of lists must be complete before it is shared with the watching goroutines
 	for _, s := range cfg.Services {
 		d.services[s] = newServiceList()
-		d.initService(s)
 	}
 	// save self
 	addr, _ := cfg.RegisterAddr()
 	d.addService(cfg.Name, addr, cfg.RegisterKey())
+	for _, s := range cfg.Services {
+		d.initService(s)
+	}
 	return d
 }
 
-- 
2.43.0


From fe5754186c8d984ce2508d612ef387d587dceee2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 38/80] fix: a shard or copy that ends before its size is an
 error, and nothing beyond the size is requested

---
 .../internal/usecase/service/get_stream.go    | 34 ++++++++++++++-----
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/get_stream.go b/src/apiserver/internal/usecase/service/get_stream.go
index a2ad473..70b21c8 100644
--- a/src/apiserver/internal/usecase/service/get_stream.go
+++ b/src/apiserver/internal/usecase/service/get_stream.go
@@ -12,6 +12,7 @@ type GetStream struct {
 	Locate   string
 	name     string
 	size     int64
+	remain   int64 // bytes left to read since requested
 	compress bool
 }
 
@@ -31,15 +32,21 @@ func (g *GetStream) CheckStat() error {
 	return webapi.HeadObject(g.Locate, g.name)
 }
 
-func (g *GetStream) request(offset int) error {
-	resp, err := webapi.GetObject(g.Locate, g.name, offset, g.size, g.compress)
+func (g *GetStream) request(offset int64) error {
+	if offset >= g.size {
+		// nothing left to read
+		g.reader, g.remain = http.NoBody, 0
+		return nil
+	}
+	resp, err := webapi.GetObject(g.Locate, g.name, int(offset), g.size-offset, g.compress)
 	if err != nil {
 		return err
 	}
 	if resp.StatusCode != http.StatusOK {
+		resp.Body.Close()
 		return fmt.Errorf("get object from dataServer return http code %v", resp.StatusCode)
 	}
-	g.reader = resp.Body
+	g.reader, g.remain = resp.Body, g.size-offset
 	return nil
 }
 
@@ -51,17 +58,17 @@ func (g *GetStream) Seek(offset int64, whence int) (int64, error) {
 		return 0, fmt.Errorf("get stream only supports SeekStart and SeekCurrent")
 	}
 	if g.reader == nil {
-		if err := g.request(int(offset)); err != nil {
+		if err := g.request(offset); err != nil {
 			return 0, err
 		}
 		return offset, nil
 	}
 	if offset > 0 {
-		n, err := io.ReadFull(g.reader, make([]byte, offset))
-		if err == io.EOF || err == io.ErrUnexpectedEOF {
+		n, err := io.CopyN(io.Discard, g, offset)
+		if err == io.EOF {
 			err = nil
 		}
-		return int64(n), err
+		return n, err
 	}
 	return 0, nil
 }
@@ -72,7 +79,18 @@ func (g *GetStream) Read(bt []byte) (int, error) {
 			return 0, err
 		}
 	}
-	return g.reader.Read(bt)
+	if g.remain == 0 {
+		return 0, io.EOF
+	}
+	if int64(len(bt)) > g.remain {
+		bt = bt[:g.remain]
+	}
+	n, err := g.reader.Read(bt)
+	g.remain -= int64(n)
+	if err == io.EOF && g.remain > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return n, err
 }
 
 func (g *GetStream) Close() error {
-- 
2.43.0


From 2a213b38a57949d3d116a3d4d2ded0b5a6fb9890 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 39/80] fix: lost shards are rewritten in order and published
 only after a complete read, and a short shard or failing replacement never
 breaks the read

---
 .../internal/usecase/service/rs_decoder.go    | 80 +++++++++++++------
 .../internal/usecase/service/rs_get_stream.go | 78 ++++++++++++------
 2 files changed, 107 insertions(+), 51 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/rs_decoder.go b/src/apiserver/internal/usecase/service/rs_decoder.go
index 381a802..9ffe679 100644
--- a/src/apiserver/internal/usecase/service/rs_decoder.go
+++ b/src/apiserver/internal/usecase/service/rs_decoder.go
@@ -21,6 +21,8 @@ type rsDecoder struct {
 	cursor       int
 	total        int64
 	size         int64
+	writeErrs    []error       // first error of each writer, guarded by saving
+	saving       chan struct{} // closed when the lost shards of all blocks read so far are saved
 }
 
 func NewDecoder(readers []io.Reader, writes []io.Writer, size int64, rsCfg *config.RsConfig) *rsDecoder {
@@ -34,6 +36,51 @@ func NewDecoder(readers []io.Reader, writes []io.Writer, size int64, rsCfg *conf
 		cache:        buf[:0], // let cache and shardsBuffer using same address to reduce memory allocate and usage
 		shardsBuffer: buf,
 		rsCfg:        *rsCfg,
+		writeErrs:    make([]error, len(writes)),
+	}
+}
+
+// blockShardSize is the length of every shard of the next block
+func (d *rsDecoder) blockShardSize() int {
+	block := d.size - d.total
+	if full := int64(d.rsCfg.BlockSize()); block > full {
+		block = full
+	}
+	return d.rsCfg.ShardSize(block)
+}
+
+// saveLostShards appends shards to the writers, after the ones of the blocks before
+func (d *rsDecoder) saveLostShards(shards [][]byte) {
+	prev, done := d.saving, make(chan struct{})
+	d.saving = done
+	go func() {
+		defer graceful.Recover()
+		defer close(done)
+		if prev != nil {
+			<-prev
+		}
+		var wg sync.WaitGroup
+		for i, w := range d.writers {
+			if w == nil || d.writeErrs[i] != nil {
+				continue
+			}
+			wg.Add(1)
+			go func(idx int, wt io.Writer) {
+				defer graceful.Recover()
+				defer wg.Done()
+				if _, d.writeErrs[idx] = wt.Write(shards[idx]); d.writeErrs[idx] != nil {
+					logs.Std().Errorf("rewrite lost shards fail: %s", d.writeErrs[idx])
+				}
+			}(i, w)
+		}
+		wg.Wait()
+	}()
+}
+
+// waitSaved blocks until the lost shards of all blocks read so far are written or failed
+func (d *rsDecoder) waitSaved() {
+	if d.saving != nil {
+		<-d.saving
 	}
 }
 
@@ -71,22 +118,22 @@ func (d *rsDecoder) getData() error {
 	// read shards
 	var wg sync.WaitGroup
 	shards := make([][]byte, d.rsCfg.AllShards())
+	perShard := d.blockShardSize()
 	for i := range shards {
 		if d.readers[i] == nil {
 			continue
 		}
 		// split shardsBuffer to avoid new memory alloc
-		shards[i] = d.shardsBuffer[i*d.rsCfg.BlockPerShard : (i+1)*d.rsCfg.BlockPerShard]
+		shards[i] = d.shardsBuffer[i*d.rsCfg.BlockPerShard : i*d.rsCfg.BlockPerShard+perShard]
 		wg.Add(1)
 		go func(idx int) {
 			defer graceful.Recover()
 			defer wg.Done()
-			n, err := io.ReadFull(d.readers[idx], shards[idx])
-			if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+			if _, err := io.ReadFull(d.readers[idx], shards[idx]); err != nil {
+				// a broken or short shard is useless from here on
 				logs.Std().Debugf("read shard %d err: %s", idx, err)
-				shards[idx] = nil
+				shards[idx], d.readers[idx] = nil, nil
 			}
-			shards[idx] = shards[idx][:n]
 		}(i)
 	}
 	wg.Wait()
@@ -97,25 +144,7 @@ func (d *rsDecoder) getData() error {
 	}
 
 	// save lost shards
-	var err error
-	go func() {
-		defer graceful.Recover()
-		for i, w := range d.writers {
-			if w == nil {
-				continue
-			}
-			wg.Add(1)
-			go func(idx int, wt io.Writer) {
-				defer graceful.Recover()
-				defer wg.Done()
-				if _, inner := wt.Write(shards[idx]); inner != nil {
-					err = inner
-					logs.Std().Errorf("rewrite lost shards fail: %s", inner)
-					return
-				}
-			}(i, w)
-		}
-	}()
+	d.saveLostShards(shards)
 
 	// combine data shards
 	for i := range shards[:d.rsCfg.DataShards] {
@@ -129,8 +158,7 @@ func (d *rsDecoder) getData() error {
 	}
 
 	if !d.rsCfg.RewriteAsync {
-		wg.Wait()
-		return err
+		d.waitSaved()
 	}
 
 	return nil
diff --git a/src/apiserver/internal/usecase/service/rs_get_stream.go b/src/apiserver/internal/usecase/service/rs_get_stream.go
index 4a12272..b2f6705 100644
--- a/src/apiserver/internal/usecase/service/rs_get_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_get_stream.go
@@ -16,10 +16,12 @@ import (
 type RSGetStream struct {
 	*rsDecoder
 	*StreamOption
+	closers []io.Closer    // all opened readers
+	targets map[int]string // servers of the lost shards
 }
 
 type provideStream struct {
-	stream io.Reader
+	stream io.ReadCloser
 	index  int
 	err    error
 }
@@ -52,23 +54,33 @@ func NewRSGetStream(option *StreamOption, rsCfg *config.RsConfig) (*RSGetStream,
 	readers := make([]io.Reader, rsCfg.AllShards())
 	writers := make([]io.Writer, rsCfg.AllShards())
 	perSize := rsCfg.ShardSize(option.Size)
+	closers := make([]io.Closer, 0, rsCfg.AllShards())
+	targets := make(map[int]string)
 	lb := logic.NewDiscovery().NewDataServSelector()
+	available := len(lb.IPs) > 0
 	for r := range provideGetStream(option.Hash, option.Locates, perSize, option.Compress) {
 		if r.err != nil {
 			logs.Std().Error(r.err)
+			if !available {
+				continue
+			}
 			ip := lb.Select()
-			writers[r.index], r.err = NewPutStream(ip, fmt.Sprintf("%s.%d", option.Hash, r.index), int64(perSize), option.Compress)
-			if r.err != nil {
-				return nil, r.err
+			writer, err := NewPutStream(ip, fmt.Sprintf("%s.%d", option.Hash, r.index), int64(perSize), option.Compress)
+			if err != nil {
+				// the object may be readable even if the shard can not be replaced
+				logs.Std().Errorf("replace lost shard %s.%d fail: %s", option.Hash, r.index, err)
+				continue
 			}
-			// metadata update required
-			option.Locates[r.index] = ip
+			writers[r.index] = writer
+			// metadata update required if the shard is committed
+			targets[r.index] = ip
 		} else {
 			readers[r.index] = r.stream
+			closers = append(closers, r.stream)
 		}
 	}
 	dec := NewDecoder(readers, writers, option.Size, rsCfg)
-	return &RSGetStream{dec, option}, nil
+	return &RSGetStream{dec, option, closers, targets}, nil
 }
 
 func NewRSTempStream(option *StreamOption, rsCfg *config.RsConfig) *RSGetStream {
@@ -76,11 +88,14 @@ func NewRSTempStream(option *StreamOption, rsCfg *config.RsConfig) *RSGetStream
 	writers := make([]io.Writer, rsCfg.AllShards())
 	dsNum := int64(rsCfg.DataShards)
 	perSize := (option.Size + dsNum - 1) / dsNum
+	closers := make([]io.Closer, 0, rsCfg.AllShards())
 	for idx, loc := range option.Locates {
-		readers[idx] = NewTempStream(loc, fmt.Sprintf("%s.%d", option.Hash, idx), perSize)
+		stream := NewTempStream(loc, fmt.Sprintf("%s.%d", option.Hash, idx), perSize)
+		readers[idx] = stream
+		closers = append(closers, stream)
 	}
 	dec := NewDecoder(readers, writers, option.Size, rsCfg)
-	return &RSGetStream{dec, option}
+	return &RSGetStream{dec, option, closers, nil}
 }
 
 func (g *RSGetStream) Seek(offset int64, whence int) (int64, error) {
@@ -110,30 +125,43 @@ func (g *RSGetStream) Seek(offset int64, whence int) (int64, error) {
 	return offset, nil
 }
 
+// Close ends reading. Lost shards are committed only if all of them are known to be complete.
 func (g *RSGetStream) Close() error {
-	wg := util.NewDoneGroup()
-	defer wg.Close()
+	for _, c := range g.closers {
+		util.LogErr(c.Close())
+	}
+	g.waitSaved()
+	complete := g.total == g.size
+	locates := append([]string(nil), g.Locates...)
+	committed := make([]bool, len(g.writers))
+	wg := util.NewWaitGroup()
+	errs := make([]error, len(g.writers))
+	for i, w := range g.writers {
+		cm, ok := w.(Committer)
+		if !ok {
+			continue
+		}
+		wg.Todo()
+		go func(idx int, cm Committer) {
+			defer wg.Done()
+			ok := complete && g.writeErrs[idx] == nil
+			errs[idx] = cm.Commit(ok)
+			committed[idx] = ok && errs[idx] == nil
+		}(i, cm)
+	}
+	wg.Wait()
 	var needUpdate bool
-	for _, w := range g.writers {
-		if util.InstanceOf[Committer](w) {
+	for i, ok := range committed {
+		if ok {
 			needUpdate = true
-			wg.Todo()
-			go func(cm Committer) {
-				defer wg.Done()
-				if e := cm.Commit(true); e != nil {
-					wg.Error(e)
-				}
-			}(w.(Committer))
+			locates[i] = g.targets[i]
 		}
 	}
-	if err := wg.WaitUntilError(); err != nil {
-		return err
-	}
 	if needUpdate {
 		if g.Updater == nil {
 			return errors.New("locates updater required but nil")
 		}
-		return g.Updater(g.Locates)
+		errs = append(errs, g.Updater(locates))
 	}
-	return nil
+	return errors.Join(errs...)
 }
-- 
2.43.0


From d3b554d4842b6d3c791821be232caa60a9419c01 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 40/80] fix: copies are restored only from a complete read and
 recorded together with the surviving ones

---
 .../usecase/service/copy_fix_stream.go        | 68 +++++++++++--------
 .../usecase/service/copy_get_stream.go        | 29 ++++----
 2 files changed, 53 insertions(+), 44 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/copy_fix_stream.go b/src/apiserver/internal/usecase/service/copy_fix_stream.go
index f72fb47..0b5eac2 100644
--- a/src/apiserver/internal/usecase/service/copy_fix_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_fix_stream.go
@@ -4,32 +4,34 @@ import (
 	"apiserver/config"
 	"apiserver/internal/usecase/webapi"
 	"bytes"
-	"common/collection/set"
 	"common/graceful"
 	"common/util"
 	"errors"
 	"fmt"
-	"strings"
 )
 
 type CopyFixStream struct {
-	fileNames []string
-	locates   []string
-	compress  bool
-	buffer    *bytes.Buffer
-	rpConfig  *config.ReplicationConfig
-	Updater   LocatesUpdater
+	hash       string
+	newLocates []string // servers for the first copies, all of which are lost
+	locates    []string // recorded servers of all copies
+	size       int64
+	compress   bool
+	buffer     *bytes.Buffer
+	rpConfig   *config.ReplicationConfig
+	Updater    LocatesUpdater
 }
 
-func NewCopyFixStream(lostNames []string, newLocates []string, opt *StreamOption, cfg *config.ReplicationConfig) (*CopyFixStream, error) {
+func NewCopyFixStream(newLocates []string, opt *StreamOption, cfg *config.ReplicationConfig) *CopyFixStream {
 	return &CopyFixStream{
-		fileNames: lostNames,
-		locates:   newLocates,
-		rpConfig:  cfg,
-		compress:  opt.Compress,
-		buffer:    bytes.NewBuffer(make([]byte, 0, opt.Size)),
-		Updater:   opt.Updater,
-	}, nil
+		hash:       opt.Hash,
+		newLocates: newLocates,
+		locates:    append([]string(nil), opt.Locates...),
+		size:       opt.Size,
+		rpConfig:   cfg,
+		compress:   opt.Compress,
+		buffer:     bytes.NewBuffer(make([]byte, 0, opt.Size)),
+		Updater:    opt.Updater,
+	}
 }
 
 func (c *CopyFixStream) Write(bt []byte) (int, error) {
@@ -37,6 +39,10 @@ func (c *CopyFixStream) Write(bt []byte) (int, error) {
 }
 
 func (c *CopyFixStream) Close() error {
+	if int64(c.buffer.Len()) != c.size {
+		// only a complete read can restore a copy
+		return nil
+	}
 	wait := c.startFix()
 	if c.rpConfig.CopyAsync {
 		go func() {
@@ -54,29 +60,33 @@ func (c *CopyFixStream) startFix() func() error {
 	go func() {
 		defer dg.Done()
 		data := c.buffer.Bytes()
-		errs := set.NewWriteSyncSet()
+		errs := make([]error, len(c.newLocates))
 		wg := util.NewWaitGroup()
-		for idx, name := range c.fileNames {
+		for idx := range c.newLocates {
 			wg.Todo()
-			go func(i int, key string) {
+			go func(i int) {
 				defer wg.Done()
-				if err := webapi.PutObject(c.locates[i], key, c.compress, bytes.NewBuffer(data)); err != nil {
-					errs.Add(fmt.Sprintf("fix %s put-api err: %w", key, err))
+				key := fmt.Sprint(c.hash, ".", i)
+				if err := webapi.PutObject(c.newLocates[i], key, c.compress, bytes.NewBuffer(data)); err != nil {
+					errs[i] = fmt.Errorf("fix %s put-api err: %w", key, err)
 				}
-			}(idx, name)
+			}(idx)
 		}
 		wg.Wait()
-		if errs.Size() > 0 {
-			dg.Error(errors.New(strings.Join(set.To[string](errs), ";")))
-			return
+		// only restored copies get a new place
+		restored := false
+		for i, err := range errs {
+			if err == nil {
+				c.locates[i], restored = c.newLocates[i], true
+			}
 		}
 		if c.Updater == nil {
-			dg.Error(errors.New("locates updater required but nil"))
-			return
+			errs = append(errs, errors.New("locates updater required but nil"))
+		} else if restored {
+			errs = append(errs, c.Updater(c.locates))
 		}
-		if err := c.Updater(c.locates); err != nil {
+		if err := errors.Join(errs...); err != nil {
 			dg.Error(err)
-			return
 		}
 	}()
 	return dg.WaitUntilError
diff --git a/src/apiserver/internal/usecase/service/copy_get_stream.go b/src/apiserver/internal/usecase/service/copy_get_stream.go
index 894178e..485c720 100644
--- a/src/apiserver/internal/usecase/service/copy_get_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_get_stream.go
@@ -15,26 +15,26 @@ type CopyGetStream struct {
 
 func NewCopyGetStream(opt *StreamOption, rpCfg *config.ReplicationConfig) (*CopyGetStream, error) {
 	var getStream io.ReadSeekCloser
-	var err error
-	var failIds, newLocates []string
-	lb := logic.NewDiscovery().NewDataServSelector()
+	lost := 0
 	for idx, loc := range opt.Locates {
-		id := fmt.Sprint(opt.Hash, ".", idx)
-		getStream, err = NewGetStream(loc, id, opt.Size, opt.Compress)
+		stream, err := NewGetStream(loc, fmt.Sprint(opt.Hash, ".", idx), opt.Size, opt.Compress)
 		if err == nil {
+			getStream = stream
 			break
 		}
-		failIds = append(failIds, id)
-		opt.Locates[idx] = lb.Select()
-		newLocates = append(newLocates, opt.Locates[idx])
+		lost++
 	}
-	if len(failIds) == len(opt.Locates) {
+	if getStream == nil {
 		return nil, fmt.Errorf("not found any copies of %s", opt.Hash)
 	}
 	var fixStream io.WriteCloser
-	if len(failIds) > rpCfg.ToleranceLossNum() {
-		fixStream, err = NewCopyFixStream(failIds, newLocates, opt, rpCfg)
-		util.LogErrWithPre("fix copies err", err)
+	lb := logic.NewDiscovery().NewDataServSelector()
+	if lost > rpCfg.ToleranceLossNum() && len(lb.IPs) > 0 {
+		newLocates := make([]string, lost)
+		for i := range newLocates {
+			newLocates[i] = lb.Select()
+		}
+		fixStream = NewCopyFixStream(newLocates, opt, rpCfg)
 	}
 	return &CopyGetStream{
 		reader: getStream,
@@ -45,9 +45,8 @@ func NewCopyGetStream(opt *StreamOption, rpCfg *config.ReplicationConfig) (*Copy
 func (c *CopyGetStream) Read(p []byte) (n int, err error) {
 	n, err = c.reader.Read(p)
 	if c.writer != nil && n > 0 {
-		if n, err = c.writer.Write(p[:n]); err != nil {
-			return
-		}
+		_, inner := c.writer.Write(p[:n])
+		util.LogErrWithPre("fix copies err", inner)
 	}
 	return
 }
-- 
2.43.0


From 3561606dc96c36ecc36306a3b7189be0e17c60fa Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 41/80] fix: objects are written and read with the same block
 size, which is never zero

---
 src/apiserver/config/config.go                    | 15 +++++++++++++++
 src/apiserver/internal/entity/metadata.go         |  7 +------
 .../internal/usecase/service/object_service.go    |  6 +-----
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/apiserver/config/config.go b/src/apiserver/config/config.go
index f65fe02..197573f 100644
--- a/src/apiserver/config/config.go
+++ b/src/apiserver/config/config.go
@@ -92,6 +92,21 @@ func (r *RsConfig) FullSize() int {
 	return r.BlockPerShard * r.AllShards()
 }
 
+// AlignBlock aligns the block size for an object of the size. Stored objects depend on it: it must be the same whenever
+// an object is written or read.
+func (r *RsConfig) AlignBlock(objectSize int64) {
+	if i := r.BlockSize() % cst.OS.NetPkgSize; i > 0 {
+		newSize := int64(r.BlockSize() - i + cst.OS.NetPkgSize)
+		if objectSize < newSize {
+			newSize = objectSize
+		}
+		r.BlockPerShard = int(newSize) / r.DataShards
+		if r.BlockPerShard == 0 {
+			r.BlockPerShard = 1
+		}
+	}
+}
+
 func (r *RsConfig) ShardSize(totalSize int64) int {
 	dsNum := int64(r.DataShards)
 	return int((totalSize + dsNum - 1) / dsNum)
diff --git a/src/apiserver/internal/entity/metadata.go b/src/apiserver/internal/entity/metadata.go
index 0d31256..67fb239 100644
--- a/src/apiserver/internal/entity/metadata.go
+++ b/src/apiserver/internal/entity/metadata.go
@@ -2,8 +2,6 @@ package entity
 
 import (
 	"apiserver/config"
-	"common/cst"
-	"common/util/math"
 )
 
 type VerMode int32
@@ -107,12 +105,9 @@ func (b *Bucket) MakeConf(conf *config.ObjectConfig, objectSize int64) (cfg conf
 	case ECReedSolomon:
 		cfg.ReedSolomon.DataShards = b.DataShards
 		cfg.ReedSolomon.ParityShards = b.ParityShards
-		if i := cfg.ReedSolomon.BlockSize() % cst.OS.NetPkgSize; i > 0 {
-			newSize := math.MinInt(cfg.ReedSolomon.BlockSize()-i+cst.OS.NetPkgSize, int(objectSize))
-			cfg.ReedSolomon.BlockPerShard = newSize / cfg.ReedSolomon.DataShards
-		}
 	case MultiReplication:
 		cfg.Replication.CopiesCount = b.DataShards
 	}
+	cfg.ReedSolomon.AlignBlock(objectSize)
 	return
 }
diff --git a/src/apiserver/internal/usecase/service/object_service.go b/src/apiserver/internal/usecase/service/object_service.go
index 1e4189b..76adda5 100644
--- a/src/apiserver/internal/usecase/service/object_service.go
+++ b/src/apiserver/internal/usecase/service/object_service.go
@@ -14,7 +14,6 @@ import (
 	"common/response"
 	"common/util"
 	"common/util/crypto"
-	"common/util/math"
 	"context"
 	"errors"
 	"fmt"
@@ -256,10 +255,7 @@ func NewStreamProvider(opt *StreamOption, ver *entity.Version) StreamProvider {
 		cfg.DataShards = ver.DataShards
 		cfg.ParityShards = ver.ParityShards
 		// aligned block size
-		if i := cfg.BlockSize() % cst.OS.NetPkgSize; i > 0 {
-			newSize := math.MinInt(cfg.BlockSize()-i+cst.OS.NetPkgSize, int(opt.Size))
-			cfg.BlockPerShard = newSize / cfg.DataShards
-		}
+		cfg.AlignBlock(opt.Size)
 		return RsStreamProvider(opt, &cfg)
 	case entity.MultiReplication:
 		cfg := pool.Config.Object.Replication
-- 
2.43.0


From e019376d73ec500219bc7bcab5e6ab98d6efec6d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 42/80] fix: a failed upload leaves no write in flight and
 rolls back, and parity is optional

---
 go.work.sum                                          | 11 +++++++++++
 .../internal/usecase/service/copy_put_stream.go      | 12 +++++++++---
 src/apiserver/internal/usecase/service/rs_encoder.go |  9 ++++++---
 .../internal/usecase/service/rs_put_stream.go        | 10 +++++++---
 4 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/go.work.sum b/go.work.sum
index 71a3190..72c94ba 100644
--- a/go.work.sum
+++ b/go.work.sum
@@ -275,6 +275,7 @@ go.uber.org/multierr v1.10.0/go.mod h1:20+QtiLqy0Nd6FdQB9TLXag12DsQkrbs3htMFfDN8
 golang.org/x/crypto v0.0.0-20210921155107-089bfa567519/go.mod h1:GvvjBRRGRdwPK5ydBHafDWAxML/pGHZbMvKqRZ5+Abc=
 golang.org/x/crypto v0.7.0/go.mod h1:pYwdfH91IfpZVANVyUOhSIPZaFoJGxTFbZhFTx+dXZU=
 golang.org/x/crypto v0.14.0/go.mod h1:MVFd36DqK4CsrnJYDkBA3VC4m2GkXAM0PvzMCn4JQf4=
+golang.org/x/crypto v0.17.0/go.mod h1:gCAAfMLgwOJRpTjQ2zCCt2OcSfYMTeZVSRtQlPC7Nq4=
 golang.org/x/exp v0.0.0-20190121172915-509febef88a4 h1:c2HOrn5iMezYjSlGPncknSEr/8x5LELb/ilJbXi9DEA=
 golang.org/x/lint v0.0.0-20210508222113-6edffad5e616 h1:VLliZ0d+/avPrXXH+OakdXhpJuEoBZuwh1m2j7U6Iug=
 golang.org/x/mod v0.4.2 h1:Gz96sIWK3OalVv/I/qNygP42zyoKp3xptRVCWRFEBvo=
@@ -283,6 +284,7 @@ golang.org/x/mod v0.6.0-dev.0.20220419223038-86c51ed26bb4/go.mod h1:jJ57K6gSWd91
 golang.org/x/mod v0.8.0 h1:LUYupSeNrTNCGzR/hVBk2NHZO4hXcVaW1k4Qx7rjPx8=
 golang.org/x/mod v0.8.0/go.mod h1:iBbtSCu2XBx23ZKBPSOrRkjjQPZFPuis4dIYUhu/chs=
 golang.org/x/mod v0.9.0/go.mod h1:iBbtSCu2XBx23ZKBPSOrRkjjQPZFPuis4dIYUhu/chs=
+golang.org/x/mod v0.13.0/go.mod h1:hTbmBsO62+eylJbnUtE2MGJUyE7QWk4xUqPFrRgJ+7c=
 golang.org/x/net v0.0.0-20190603091049-60506f45cf65/go.mod h1:HSz+uSET+XFnRR8LxR5pz3Of3rY3CfYBVs4xY44aLks=
 golang.org/x/net v0.0.0-20190628185345-da137c7871d7/go.mod h1:z5CRVTTTmAJ677TzLLGU+0bjPO0LkuOLi4/5GtJWs/s=
 golang.org/x/net v0.0.0-20200625001655-4c5254603344/go.mod h1:/O7V0waA8r7cgGh81Ro3o1hOxt32SMVPicZroKQ2sZA=
@@ -291,8 +293,10 @@ golang.org/x/net v0.0.0-20220722155237-a158d28d115b/go.mod h1:XRhObCWvk6IyKnWLug
 golang.org/x/net v0.8.0/go.mod h1:QVkue5JL9kW//ek3r6jTKnTFis1tRmNAW2P1shuFdJc=
 golang.org/x/net v0.10.0/go.mod h1:0qNGK6F8kojg2nk9dLZ2mShWaEBan6FAoqfSigmmuDg=
 golang.org/x/net v0.16.0/go.mod h1:NxSsAGuq816PNPmqtQdLE42eU2Fs7NoRIZrHJAlaCOE=
+golang.org/x/net v0.17.0/go.mod h1:NxSsAGuq816PNPmqtQdLE42eU2Fs7NoRIZrHJAlaCOE=
 golang.org/x/net v0.18.0/go.mod h1:/czyP5RqHAH4odGYxBJ1qz0+CE5WZ+2j1YgoEo8F2jQ=
 golang.org/x/net v0.19.0/go.mod h1:CfAk/cbD4CthTvqiEl8NpboMuiuOYsAr/7NOjZJtv1U=
+golang.org/x/net v0.21.0/go.mod h1:bIjVDfnllIU7BJ2DNgfnXvpSvtn8VRwhlsaeUTyUS44=
 golang.org/x/oauth2 v0.0.0-20190226205417-e64efc72b421/go.mod h1:gOpvHmFTYa4IltrdGE7lF6nIHvwfUNPOp7c8zoXwtLw=
 golang.org/x/oauth2 v0.0.0-20200107190931-bf48bf16ab8d h1:TzXSXBo42m9gQenoE3b9BGiEpg5IG2JkU5FkPIawgtw=
 golang.org/x/oauth2 v0.13.0/go.mod h1:/JMhi4ZRXAf4HG9LiNmxvk+45+96RUlVThiH8FzNBn0=
@@ -312,6 +316,7 @@ golang.org/x/sys v0.0.0-20200625212154-ddb9806d33ae/go.mod h1:h1NjWce9XRLGQEsW7w
 golang.org/x/sys v0.0.0-20210124154548-22da62e12c0c/go.mod h1:h1NjWce9XRLGQEsW7wpKNCjG9DtNlClVuFLEZdDNbEs=
 golang.org/x/sys v0.0.0-20210403161142-5e06dd20ab57/go.mod h1:h1NjWce9XRLGQEsW7wpKNCjG9DtNlClVuFLEZdDNbEs=
 golang.org/x/sys v0.0.0-20210603081109-ebe580a85c40/go.mod h1:oPkhp1MJrh7nUepCBck5+mAzfO9JrbApNNgaTdGDITg=
+golang.org/x/sys v0.0.0-20220520151302-bc2c85ada10a/go.mod h1:oPkhp1MJrh7nUepCBck5+mAzfO9JrbApNNgaTdGDITg=
 golang.org/x/sys v0.0.0-20220722155257-8c9f86f7a55f/go.mod h1:oPkhp1MJrh7nUepCBck5+mAzfO9JrbApNNgaTdGDITg=
 golang.org/x/sys v0.4.0/go.mod h1:oPkhp1MJrh7nUepCBck5+mAzfO9JrbApNNgaTdGDITg=
 golang.org/x/sys v0.13.0/go.mod h1:oPkhp1MJrh7nUepCBck5+mAzfO9JrbApNNgaTdGDITg=
@@ -324,6 +329,7 @@ golang.org/x/term v0.8.0 h1:n5xxQn2i3PC0yLAbjTpNT85q/Kgzcr2gIoX9OrJUols=
 golang.org/x/term v0.8.0/go.mod h1:xPskH00ivmX89bAKVGSKKtLOWNx2+17Eiy94tnKShWo=
 golang.org/x/term v0.13.0/go.mod h1:LTmsnFJwVN6bCy1rVCoS+qHT1HhALEFxKncY3WNNh4U=
 golang.org/x/term v0.16.0/go.mod h1:yn7UURbUtPyrVJPGPq404EukNFxcm/foM+bV/bfcDsY=
+golang.org/x/term v0.18.0/go.mod h1:ILwASektA3OnRv7amZ1xhE/KTR+u50pbXfZ03+6Nx58=
 golang.org/x/text v0.3.8/go.mod h1:E6s5w1FMmriuDzIBO73fBruAKo1PCIq6d2Q6DHfQ8WQ=
 golang.org/x/text v0.8.0/go.mod h1:e1OnstbJyHTd6l/uOt8jFFHp6TRDWZR/bV3emEE/zU8=
 golang.org/x/text v0.13.0/go.mod h1:TvPlkZtksWOMsz7fbANvkp4WM8x/WCo/om8BMLbz+aE=
@@ -334,6 +340,7 @@ golang.org/x/tools v0.1.12/go.mod h1:hNGJHUnrk76NpqgfD5Aqm5Crs+Hm0VOH/i9J2+nxYbc
 golang.org/x/tools v0.6.0 h1:BOw41kyTf3PuCW1pVQf8+Cyg8pMlkYB1oo9iJ6D/lKM=
 golang.org/x/tools v0.6.0/go.mod h1:Xwgl3UAJ/d3gWutnCtw505GrjyAbvKui8lOU390QaIU=
 golang.org/x/tools v0.13.0/go.mod h1:HvlwmtVNQAhOuCjW7xxvovg8wbNq7LwfXh/k7wXUl58=
+golang.org/x/tools v0.14.0/go.mod h1:uYBEerGOWcJyEORxN+Ek8+TT266gXkNlHdJBwexUsBg=
 golang.org/x/xerrors v0.0.0-20200804184101-5ec99f83aff1 h1:go1bK/D/BFZV2I8cIQd1NKEZ+0owSTG1fDTci4IqFcE=
 golang.org/x/xerrors v0.0.0-20231012003039-104605ab7028/go.mod h1:NDW/Ps6MPRej6fsCIbMTohpP40sJ/P/vI1MoTEGwX90=
 google.golang.org/api v0.149.0/go.mod h1:Mwn1B7JTXrzXtnvmzQE2BD6bYZQ8DShKZDZbeN9I7qI=
@@ -341,6 +348,7 @@ google.golang.org/api v0.155.0/go.mod h1:GI5qK5f40kCpHfPn6+YzGAByIKWv8ujFnmoWm7I
 google.golang.org/appengine v1.4.0 h1:/wp5JvzpHIxhs/dumFmF7BXTf3Z+dd4uXta4kVyO508=
 google.golang.org/appengine v1.6.7/go.mod h1:8WjMMxjGQR8xUklV/ARdw2HLXBOI7O7uCIDZVag1xfc=
 google.golang.org/appengine v1.6.8/go.mod h1:1jJ3jBArFh5pcgW8gCtRJnepW8FzD1V44FJffLiz/Ds=
+google.golang.org/genproto v0.0.0-20230410155749-daa745c078e1/go.mod h1:nKE/iIaLqn2bQwXBg8f1g2Ylh6r5MN5CmZvuzZCgsCU=
 google.golang.org/genproto v0.0.0-20230822172742-b8732ec3820d/go.mod h1:yZTlhN0tQnXo3h00fuXNCxJdLdIdnVFVBaRJ5LWBbw4=
 google.golang.org/genproto v0.0.0-20231016165738-49dd2c1f3d0b/go.mod h1:CgAqfJo+Xmu0GwA0411Ht3OU3OntXwsGmrmjI8ioGXI=
 google.golang.org/genproto v0.0.0-20231106174013-bbf56f31fb17/go.mod h1:J7XzRzVy1+IPwWHZUzoD0IccYZIrXILAQpc+Qy9CMhY=
@@ -353,14 +361,17 @@ google.golang.org/genproto/googleapis/api v0.0.0-20231016165738-49dd2c1f3d0b/go.
 google.golang.org/genproto/googleapis/api v0.0.0-20231106174013-bbf56f31fb17/go.mod h1:0xJLfVdJqpAPl8tDg1ujOCGzx6LFLttXT5NhllGOXY4=
 google.golang.org/genproto/googleapis/api v0.0.0-20231211222908-989df2bf70f3/go.mod h1:k2dtGpRrbsSyKcNPKKI5sstZkrNCZwpU/ns96JoHbGg=
 google.golang.org/genproto/googleapis/api v0.0.0-20240102182953-50ed04b92917/go.mod h1:CmlNWB9lSezaYELKS5Ym1r44VrrbPUa7JTvw+6MbpJ0=
+google.golang.org/genproto/googleapis/api v0.0.0-20240116215550-a9fa1716bcac/go.mod h1:B5xPO//w8qmBDjGReYLpR6UJPnkldGkCSMoH/2vxJeg=
 google.golang.org/genproto/googleapis/bytestream v0.0.0-20231212172506-995d672761c0/go.mod h1:guYXGPwC6jwxgWKW5Y405fKWOFNwlvUlUnzyp9i0uqo=
 google.golang.org/genproto/googleapis/rpc v0.0.0-20230822172742-b8732ec3820d/go.mod h1:+Bk1OCOj40wS2hwAMA+aCW9ypzm63QTBBHp6lQ3p+9M=
 google.golang.org/genproto/googleapis/rpc v0.0.0-20231016165738-49dd2c1f3d0b/go.mod h1:swOH3j0KzcDDgGUWr+SNpyTen5YrXjS3eyPzFYKc6lc=
 google.golang.org/genproto/googleapis/rpc v0.0.0-20231106174013-bbf56f31fb17/go.mod h1:oQ5rr10WTTMvP4A36n8JpR1OrO1BEiV4f78CneXZxkA=
 google.golang.org/genproto/googleapis/rpc v0.0.0-20231212172506-995d672761c0/go.mod h1:FUoWkonphQm3RhTS+kOEhF8h0iDpm4tdXolVCeZ9KKA=
 google.golang.org/genproto/googleapis/rpc v0.0.0-20240102182953-50ed04b92917/go.mod h1:xtjpI3tXFPP051KaWnhvxkiubL/6dJ18vLVf7q2pTOU=
+google.golang.org/genproto/googleapis/rpc v0.0.0-20240116215550-a9fa1716bcac/go.mod h1:daQN87bsDqDoe316QbbvX60nMoJQa4r6Ds0ZuoAe5yA=
 google.golang.org/grpc v1.33.2/go.mod h1:JMHMWHQWaTccqQQlmk3MJZS+GWXOdAesneDmEnv2fbc=
 google.golang.org/grpc v1.37.0/go.mod h1:NREThFqKR1f3iQ6oBuvc5LadQuXVGo9rkm5ZGrQdJfM=
+google.golang.org/grpc v1.56.3/go.mod h1:I9bI3vqKfayGqPUAwGdOSu7kt6oIJLixfffKrpXqQ9s=
 google.golang.org/grpc v1.59.0/go.mod h1:aUPDwccQo6OTjy7Hct4AfBPD1GptF4fyUjIkQ9YtF98=
 google.golang.org/grpc v1.60.1/go.mod h1:OlCHIeLYqSSsLi6i49B5QGdzaMZK9+M7LXN2FKz4eGM=
 google.golang.org/grpc/cmd/protoc-gen-go-grpc v1.1.0/go.mod h1:6Kw0yEErY5E/yWrBtf03jp27GLLJujG4z/JK95pnjjw=
diff --git a/src/apiserver/internal/usecase/service/copy_put_stream.go b/src/apiserver/internal/usecase/service/copy_put_stream.go
index 01a1b0b..1afce92 100644
--- a/src/apiserver/internal/usecase/service/copy_put_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_put_stream.go
@@ -6,6 +6,7 @@ import (
 	"common/util"
 	"common/util/math"
 	"common/util/slices"
+	"errors"
 	"fmt"
 	"io"
 )
@@ -58,6 +59,8 @@ func (c *CopyPutStream) Flush() (err error) {
 			}
 		}(wt)
 	}
+	// no write may be in flight when it returns, even if one of them failed
+	dg.Wait()
 	return dg.WaitUntilError()
 }
 
@@ -93,8 +96,10 @@ func (c *CopyPutStream) Close() error {
 }
 
 func (c *CopyPutStream) Commit(ok bool) error {
-	if err := c.Flush(); err != nil {
-		return err
+	var flushErr error
+	if ok {
+		flushErr = c.Flush()
+		ok = flushErr == nil
 	}
 	wg := util.NewDoneGroup()
 	defer wg.Close()
@@ -109,5 +114,6 @@ func (c *CopyPutStream) Commit(ok bool) error {
 			}(w.(Committer))
 		}
 	}
-	return wg.WaitUntilError()
+	wg.Wait()
+	return errors.Join(flushErr, wg.WaitUntilError())
 }
diff --git a/src/apiserver/internal/usecase/service/rs_encoder.go b/src/apiserver/internal/usecase/service/rs_encoder.go
index 75441e0..fee7edc 100644
--- a/src/apiserver/internal/usecase/service/rs_encoder.go
+++ b/src/apiserver/internal/usecase/service/rs_encoder.go
@@ -19,9 +19,10 @@ type rsEncoder struct {
 func NewEncoder(wrs []io.WriteCloser, rsCfg *config.RsConfig) *rsEncoder {
 	enc, _ := reedsolomon.New(rsCfg.DataShards, rsCfg.ParityShards, reedsolomon.WithAutoGoroutines(rsCfg.BlockPerShard))
 	return &rsEncoder{
-		writers:  wrs,
-		enc:      enc,
-		cache:    make([]byte, 0, rsCfg.BlockSize()),
+		writers: wrs,
+		enc:     enc,
+		// splitting clears as many bytes behind the block as there are data shards
+		cache:    make([]byte, 0, rsCfg.BlockSize()+rsCfg.DataShards),
 		rsConfig: *rsCfg,
 	}
 }
@@ -108,5 +109,7 @@ func (e *rsEncoder) Flush() (int, error) {
 		}(i, v)
 	}
 
+	// no write may be in flight when it returns, even if one of them failed
+	dg.Wait()
 	return int(size), dg.WaitUntilError()
 }
diff --git a/src/apiserver/internal/usecase/service/rs_put_stream.go b/src/apiserver/internal/usecase/service/rs_put_stream.go
index 2921064..0601df0 100644
--- a/src/apiserver/internal/usecase/service/rs_put_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_put_stream.go
@@ -3,6 +3,7 @@ package service
 import (
 	"apiserver/config"
 	"common/util"
+	"errors"
 	"fmt"
 	"io"
 )
@@ -46,8 +47,10 @@ func newExistedRSPutStream(ips, ids []string, hash string, compress bool, rsCfg
 }
 
 func (p *RSPutStream) Commit(ok bool) error {
-	if _, err := p.Flush(); err != nil {
-		return err
+	var flushErr error
+	if ok {
+		_, flushErr = p.Flush()
+		ok = flushErr == nil
 	}
 
 	wg := util.NewDoneGroup()
@@ -64,5 +67,6 @@ func (p *RSPutStream) Commit(ok bool) error {
 			}
 		}(w)
 	}
-	return wg.WaitUntilError()
+	wg.Wait()
+	return errors.Join(flushErr, wg.WaitUntilError())
 }
-- 
2.43.0


From af1fc5dcc33d565448752b9ad8f2f713c4253f84 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 43/80] fix: locating an object counts each of its shards once
 and ignores malformed answers

---
 .../usecase/service/object_service.go         | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/object_service.go b/src/apiserver/internal/usecase/service/object_service.go
index 76adda5..cbf9c60 100644
--- a/src/apiserver/internal/usecase/service/object_service.go
+++ b/src/apiserver/internal/usecase/service/object_service.go
@@ -27,18 +27,10 @@ import (
 )
 
 // getLocateResp raw must like "ip#idx"
-func getLocateResp(raw string) (ip string, idx int) {
-	var err error
-	strs := strings.Split(raw, "#")
-	if len(strs) != 2 {
-		panic("err format locating resp: " + raw)
-	}
-	idx, err = strconv.Atoi(strs[1])
-	if err != nil {
-		panic(err)
-	}
-	ip = strs[0]
-	return
+func getLocateResp(raw string) (ip string, idx int, ok bool) {
+	ip, num, ok := strings.Cut(raw, "#")
+	idx, err := strconv.Atoi(num)
+	return ip, idx, ok && err == nil && ip != ""
 }
 
 type ObjectService struct {
@@ -94,7 +86,11 @@ func (o *ObjectService) LocateObject(hash string, shardNum int) ([]string, bool)
 				return nil, false
 			}
 			for _, event := range resp.Events {
-				ip, idx := getLocateResp(string(event.Kv.Value))
+				ip, idx, ok := getLocateResp(string(event.Kv.Value))
+				// each shard counts once, whoever else has it or whatever else is found under the key
+				if !ok || idx < 0 || idx >= len(locates) || locates[idx] != "" {
+					continue
+				}
 				logs.Std().Debugf("located success for index %d of %s at %s", idx, hash, ip)
 				locates[idx] = ip
 				cnt++
-- 
2.43.0


From f5b8a8fb4b568003e0d47f500209d44490233917 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:54:28 +0000
Subject: [PATCH 44/80] fix: a bucket keeps its configured number of versions,
 whoever uploads at the same time

---
 .../usecase/service/object_service.go         | 81 +++++++++----------
 1 file changed, 39 insertions(+), 42 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/object_service.go b/src/apiserver/internal/usecase/service/object_service.go
index cbf9c60..6a94140 100644
--- a/src/apiserver/internal/usecase/service/object_service.go
+++ b/src/apiserver/internal/usecase/service/object_service.go
@@ -105,32 +105,9 @@ func (o *ObjectService) LocateObject(hash string, shardNum int) ([]string, bool)
 
 // StoreObject store object to data server
 func (o *ObjectService) StoreObject(req *entity.PutReq, md *entity.Metadata) (vn int32, err error) {
-	dg := util.NewDoneGroup()
-	defer dg.Close()
-	// get metadata if exist
-	var metadata *entity.Metadata
-	dg.Todo()
-	go func() {
-		defer dg.Done()
-		var inner error
-		metadata, inner = o.metaService.GetMetadata(md.Name, md.Bucket, int32(entity.VerModeNot), true)
-		if err != nil && !response.CheckErrStatus(404, inner) {
-			dg.Error(inner)
-		}
-	}()
 	// get bucket
-	var bucket *entity.Bucket
-	dg.Todo()
-	go func() {
-		defer dg.Done()
-		var inner error
-		bucket, inner = o.bucketRepo.Get(md.Bucket)
-		if inner != nil {
-			dg.Error(inner)
-		}
-	}()
-	// wait
-	if err = dg.WaitUntilError(); err != nil {
+	bucket, err := o.bucketRepo.Get(md.Bucket)
+	if err != nil {
 		return
 	}
 	// check bucket writable
@@ -164,30 +141,50 @@ func (o *ObjectService) StoreObject(req *entity.PutReq, md *entity.Metadata) (vn
 	}
 
 	// save metadata
+	return SaveNewVersion(o.metaService, bucket, md)
+}
+
+// SaveNewVersion adds the version of md to its object, which is created if it does not exist, then removes the versions
+// that are too many for the bucket.
+func SaveNewVersion(metaService IMetaService, bucket *entity.Bucket, md *entity.Metadata) (vn int32, err error) {
+	metadata, _ := metaService.GetMetadata(md.Name, md.Bucket, int32(entity.VerModeNot), true)
 	if metadata == nil {
-		// if SaveMetadata returns ErrMetadataExists that means a concurrent problem, get the metadata and continue it.
-		if vn, err = o.metaService.SaveMetadata(md); !errors.Is(err, ErrMetadataExists) {
-			return
-		}
-		metadata, err = o.metaService.GetMetadata(md.Name, md.Bucket, int32(entity.VerModeNot), true)
-		if err != nil {
-			return
-		}
+		vn, err = metaService.SaveMetadata(md)
 	}
-	if vn, err = o.metaService.AddVersion(md.Name, md.Bucket, ver); err != nil {
-		return
+	// if SaveMetadata returns ErrMetadataExists that means a concurrent problem
+	if metadata != nil || errors.Is(err, ErrMetadataExists) {
+		vn, err = metaService.AddVersion(md.Name, md.Bucket, md.Versions[0])
 	}
-	if metadata.Total > 0 && !bucket.Versioning || metadata.Total >= bucket.VersionRemains {
-		go func() {
-			defer graceful.Recover()
-			// if not err, delete first version
-			inner := o.metaService.RemoveVersion(md.Name, md.Bucket, int32(metadata.FirstVersion))
-			util.LogErrWithPre("remove first version err", inner)
-		}()
+	if err != nil {
+		return
 	}
+	go func() {
+		defer graceful.Recover()
+		util.LogErrWithPre("remove old versions err", removeOldVersions(metaService, bucket, md.Name))
+	}()
 	return
 }
 
+// removeOldVersions removes the first versions until as many are left as the bucket allows
+func removeOldVersions(metaService IMetaService, bucket *entity.Bucket, name string) error {
+	remains := 1
+	if bucket.Versioning && bucket.VersionRemains > 1 {
+		remains = bucket.VersionRemains
+	}
+	for {
+		metadata, err := metaService.GetMetadata(name, bucket.Name, int32(entity.VerModeNot), true)
+		if err != nil {
+			return err
+		}
+		if metadata.Total <= remains {
+			return nil
+		}
+		if err = metaService.RemoveVersion(name, bucket.Name, int32(metadata.FirstVersion)); err != nil {
+			return err
+		}
+	}
+}
+
 func streamToDataServer(req *entity.PutReq, meta *entity.Version, provider StreamProvider) ([]string, error) {
 	//stream to store
 	stream, locates, err := dataServerStream(meta, provider)
-- 
2.43.0


From 80ac02bfbe40688dc3f10706f047b237fd6d01df Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 45/80] fix: a read that fails midway breaks off the response
 instead of ending it as complete

---
 src/apiserver/internal/controller/http/objects_api.go |  6 ++++++
 src/apiserver/internal/controller/http/server.go      | 10 +++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/apiserver/internal/controller/http/objects_api.go b/src/apiserver/internal/controller/http/objects_api.go
index 1bd1801..2cba55c 100644
--- a/src/apiserver/internal/controller/http/objects_api.go
+++ b/src/apiserver/internal/controller/http/objects_api.go
@@ -9,6 +9,7 @@ import (
 	"common/util"
 	"github.com/gin-gonic/gin"
 	"io"
+	"net/http"
 )
 
 type ObjectsController struct {
@@ -85,6 +86,11 @@ func (oc *ObjectsController) Get(c *gin.Context) {
 	n, err := io.Copy(c.Writer, stream)
 	if err != nil {
 		logs.Std().Error(err)
+		if c.Writer.Written() {
+			// too late to response an error, only a broken response tells it
+			panic(http.ErrAbortHandler)
+		}
+		response.FailErr(err, c)
 		return
 	}
 	response.OkHeader(gin.H{
diff --git a/src/apiserver/internal/controller/http/server.go b/src/apiserver/internal/controller/http/server.go
index 3548a80..b4b81bc 100644
--- a/src/apiserver/internal/controller/http/server.go
+++ b/src/apiserver/internal/controller/http/server.go
@@ -23,7 +23,7 @@ func NewHttpServer(port string, o IObjectService, m IMetaService, b repo.IBucket
 	)
 
 	eng := gin.New()
-	eng.Use(gin.LoggerWithWriter(logs.Std().Out), gin.RecoveryWithWriter(logs.Std().Out))
+	eng.Use(gin.LoggerWithWriter(logs.Std().Out), gin.RecoveryWithWriter(logs.Std().Out, recovered))
 	eng.UseRawPath = true
 	eng.UnescapePathValues = false
 
@@ -42,6 +42,14 @@ func NewHttpServer(port string, o IObjectService, m IMetaService, b repo.IBucket
 	return &Server{http.Server{Addr: ":" + port, Handler: eng.Handler()}, &pool.Config.TLS}
 }
 
+func recovered(c *gin.Context, err any) {
+	// the connection must be closed by http server
+	if err == http.ErrAbortHandler {
+		panic(err)
+	}
+	c.AbortWithStatus(http.StatusInternalServerError)
+}
+
 func (s *Server) ListenAndServe() error {
 	logs.Std().Infof("http server listen on: %s", s.Server.Addr)
 	if s.tls.Enabled {
-- 
2.43.0


From cc522add3f889106005005713dab9d1565e9c0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 46/80] fix: a resumed upload continues where every server is,
 is verified and published before its version is recorded, and never exceeds
 its size

---
 .../internal/controller/http/big_api.go       | 135 +++++++-----------
 .../internal/usecase/service/rs_encoder.go    |   5 +
 .../internal/usecase/service/rs_get_stream.go |  15 --
 .../usecase/service/rs_resumable_stream.go    | 106 ++++++++++++--
 4 files changed, 149 insertions(+), 112 deletions(-)

diff --git a/src/apiserver/internal/controller/http/big_api.go b/src/apiserver/internal/controller/http/big_api.go
index ee8f1bc..f807a19 100644
--- a/src/apiserver/internal/controller/http/big_api.go
+++ b/src/apiserver/internal/controller/http/big_api.go
@@ -1,16 +1,13 @@
 package http
 
 import (
-	"apiserver/config"
 	"apiserver/internal/entity"
 	"apiserver/internal/usecase"
 	"apiserver/internal/usecase/pool"
 	"apiserver/internal/usecase/repo"
 	"apiserver/internal/usecase/service"
-	"common/graceful"
 	"common/response"
 	"common/util"
-	"common/util/crypto"
 	"fmt"
 
 	"apiserver/internal/usecase/logic"
@@ -76,7 +73,7 @@ func (bc *BigObjectsController) Post(g *gin.Context) {
 			ShardSize:     conf.ShardSize(req.Size),
 			StoreStrategy: entity.ECReedSolomon,
 		}
-		verNum, err := bc.finishUpload(req.Name, req.Bucket, object, &conf)
+		verNum, err := bc.finishUpload(req.Name, bucket, object)
 		if err != nil {
 			response.FailErr(err, g)
 			return
@@ -100,7 +97,7 @@ func (bc *BigObjectsController) Post(g *gin.Context) {
 		Bucket:   req.Bucket,
 		Compress: req.Compress,
 		Locates:  ips,
-	}, &conf)
+	}, req.Hash, &conf)
 	if e != nil {
 		response.FailErr(e, g)
 		return
@@ -157,41 +154,67 @@ func (bc *BigObjectsController) Patch(g *gin.Context) {
 			Fail(http.StatusRequestedRangeNotSatisfiable, fmt.Sprintf("current size is %d, but range is %v", curSize, req.Range))
 		return
 	}
+	// if over the intended size, its invalid
+	remain := stream.Size - curSize
+	if g.Request.ContentLength > remain {
+		response.Exec(g).Fail(http.StatusForbidden, "file exceed the intended size")
+		return
+	}
 	// copy from request body
-	n, err := io.Copy(stream, g.Request.Body)
+	n, err := io.Copy(stream, io.LimitReader(g.Request.Body, remain+1))
+	if n > remain {
+		util.LogErr(stream.Commit(false))
+		response.Exec(g).Fail(http.StatusForbidden, "file exceed the intended size")
+		return
+	}
 	if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
 		response.FailErr(err, g)
 		return
 	}
 	curSize += n
 	if curSize < stream.Size {
-		// not read enough, see as interrupted
+		// not read enough, see as interrupted. An incomplete block is not kept
 		response.Exec(g).Status(http.StatusPartialContent).
-			Header(gin.H{"Content-Length": curSize})
+			Header(gin.H{"Content-Length": curSize - int64(stream.Buffered())})
 		return
 	}
-	// if over the intended size, its invalid
-	if curSize > stream.Size {
+	// if curSize equals expected size
+	if _, err = stream.Flush(); err != nil {
+		response.FailErr(err, g)
+		return
+	}
+	bucket, err := bc.bucketRepo.Get(stream.Bucket)
+	if err != nil {
+		response.FailErr(err, g)
+		return
+	}
+	if bucket.Readonly {
 		util.LogErr(stream.Commit(false))
-		response.Exec(g).Fail(http.StatusForbidden, "file exceed the intended size")
+		response.BadRequestMsg("bucket is readonly", g)
 		return
 	}
-	// if curSize equals expected size
-	verNum, err := bc.finishUpload(stream.Name, stream.Bucket, &entity.Version{
+	// validate digest
+	if pool.Config.Object.Checksum && !stream.Verify() {
+		util.LogErr(stream.Commit(false))
+		response.Exec(g).Fail(http.StatusForbidden, "signature authentication failure")
+		return
+	}
+	// the version must not be visible before its content is
+	if err = stream.Commit(true); err != nil {
+		response.FailErr(err, g)
+		return
+	}
+	verNum, err := bc.finishUpload(stream.Name, bucket, &entity.Version{
 		Hash:          stream.Hash,
 		Size:          stream.Size,
+		Compress:      stream.Compress,
 		Locate:        stream.Servers,
 		DataShards:    stream.Config.DataShards,
 		ParityShards:  stream.Config.ParityShards,
 		ShardSize:     stream.Config.ShardSize(stream.Size),
 		StoreStrategy: entity.ECReedSolomon,
-	}, stream.Config)
+	})
 	if err != nil {
-		util.LogErr(stream.Commit(false))
-		response.FailErr(err, g)
-		return
-	}
-	if err = stream.Commit(true); err != nil {
 		response.FailErr(err, g)
 		return
 	}
@@ -202,72 +225,10 @@ func (bc *BigObjectsController) Patch(g *gin.Context) {
 	}, g)
 }
 
-func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *entity.Version, conf *config.RsConfig) (verNum int32, err error) {
-	// validate digest
-	if pool.Config.Object.Checksum {
-		getStream := service.NewRSTempStream(&service.StreamOption{
-			Hash:    v.Hash,
-			Size:    v.Size,
-			Locates: v.Locate,
-		}, conf)
-		hash := crypto.SHA256IO(getStream)
-		if hash != v.Hash {
-			err = response.NewError(http.StatusForbidden, "signature authentication failure")
-			return
-		}
-	}
-	dg := util.NewDoneGroup()
-	defer dg.Close()
-	// get metadata if exist
-	var metadata *entity.Metadata
-	dg.Todo()
-	go func() {
-		defer dg.Done()
-		var inner error
-		metadata, inner = bc.metaService.GetMetadata(metaName, bucketName, int32(entity.VerModeNot), true)
-		if err != nil && !response.CheckErrStatus(404, inner) {
-			dg.Error(inner)
-		}
-	}()
-	// get bucket
-	var bucket *entity.Bucket
-	dg.Todo()
-	go func() {
-		defer dg.Done()
-		var inner error
-		bucket, inner = bc.bucketRepo.Get(bucketName)
-		if inner != nil {
-			dg.Error(inner)
-		}
-	}()
-	// wait
-	if err = dg.WaitUntilError(); err != nil {
-		return
-	}
-	if metadata != nil {
-		// update metadata
-		verNum, err = bc.metaService.AddVersion(metadata.Name, metadata.Bucket, v)
-		if err != nil {
-			return
-		}
-		if metadata.Total > 0 && !bucket.Versioning || metadata.Total >= bucket.VersionRemains {
-			go func() {
-				defer graceful.Recover()
-				// if not err, delete first version
-				inner := bc.metaService.RemoveVersion(metadata.Name, metadata.Bucket, int32(metadata.FirstVersion))
-				util.LogErrWithPre("remove first version err", inner)
-			}()
-		}
-	} else {
-		// add metadata
-		verNum, err = bc.metaService.SaveMetadata(&entity.Metadata{
-			Name:     metaName,
-			Bucket:   bucketName,
-			Versions: []*entity.Version{v},
-		})
-		if err != nil {
-			return
-		}
-	}
-	return
+func (bc *BigObjectsController) finishUpload(metaName string, bucket *entity.Bucket, v *entity.Version) (verNum int32, err error) {
+	return service.SaveNewVersion(bc.metaService, bucket, &entity.Metadata{
+		Name:     metaName,
+		Bucket:   bucket.Name,
+		Versions: []*entity.Version{v},
+	})
 }
diff --git a/src/apiserver/internal/usecase/service/rs_encoder.go b/src/apiserver/internal/usecase/service/rs_encoder.go
index fee7edc..16520a4 100644
--- a/src/apiserver/internal/usecase/service/rs_encoder.go
+++ b/src/apiserver/internal/usecase/service/rs_encoder.go
@@ -37,6 +37,11 @@ func (e *rsEncoder) Close() error {
 	return errors.Join(errs...)
 }
 
+// Buffered is the number of bytes not yet flushed
+func (e *rsEncoder) Buffered() int {
+	return len(e.cache)
+}
+
 func (e *rsEncoder) Write(bt []byte) (int, error) {
 	length := len(bt)
 	cur := 0
diff --git a/src/apiserver/internal/usecase/service/rs_get_stream.go b/src/apiserver/internal/usecase/service/rs_get_stream.go
index b2f6705..be4a2b0 100644
--- a/src/apiserver/internal/usecase/service/rs_get_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_get_stream.go
@@ -83,21 +83,6 @@ func NewRSGetStream(option *StreamOption, rsCfg *config.RsConfig) (*RSGetStream,
 	return &RSGetStream{dec, option, closers, targets}, nil
 }
 
-func NewRSTempStream(option *StreamOption, rsCfg *config.RsConfig) *RSGetStream {
-	readers := make([]io.Reader, rsCfg.AllShards())
-	writers := make([]io.Writer, rsCfg.AllShards())
-	dsNum := int64(rsCfg.DataShards)
-	perSize := (option.Size + dsNum - 1) / dsNum
-	closers := make([]io.Closer, 0, rsCfg.AllShards())
-	for idx, loc := range option.Locates {
-		stream := NewTempStream(loc, fmt.Sprintf("%s.%d", option.Hash, idx), perSize)
-		readers[idx] = stream
-		closers = append(closers, stream)
-	}
-	dec := NewDecoder(readers, writers, option.Size, rsCfg)
-	return &RSGetStream{dec, option, closers, nil}
-}
-
 func (g *RSGetStream) Seek(offset int64, whence int) (int64, error) {
 	if whence != io.SeekCurrent {
 		logs.Std().Warn("rs get stream only supports seek whence io.SeekCurrent")
diff --git a/src/apiserver/internal/usecase/service/rs_resumable_stream.go b/src/apiserver/internal/usecase/service/rs_resumable_stream.go
index 0144921..c190589 100644
--- a/src/apiserver/internal/usecase/service/rs_resumable_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_resumable_stream.go
@@ -3,9 +3,13 @@ package service
 import (
 	"apiserver/config"
 	"apiserver/internal/usecase/webapi"
+	"common/response"
 	"common/util"
+	"common/util/crypto"
 	"encoding/base64"
 	"fmt"
+	"io"
+	"net/http"
 )
 
 type resumeToken struct {
@@ -13,6 +17,7 @@ type resumeToken struct {
 	Size     int64            `json:"size"`
 	Name     string           `json:"name"`
 	Hash     string           `json:"hash"`
+	Digest   string           `json:"digest"`
 	Bucket   string           `json:"bucket"`
 	Servers  []string         `json:"servers"`
 	Ids      []string         `json:"ids"`
@@ -33,13 +38,16 @@ func NewRSResumablePutStreamFromToken(token string) (*RSResumablePutStream, erro
 	}
 	var tk resumeToken
 	if ok := util.GobDecode(bt, &tk); ok {
+		if tk.Config == nil || len(tk.Ids) != tk.Config.AllShards() || len(tk.Servers) != len(tk.Ids) {
+			return nil, fmt.Errorf("invalid token")
+		}
 		return &RSResumablePutStream{newExistedRSPutStream(tk.Servers, tk.Ids, tk.Hash, tk.Compress, tk.Config), &tk}, nil
 	}
 	return nil, fmt.Errorf("invalid token")
 }
 
 // NewRSResumablePutStream 开启新的断点续传
-func NewRSResumablePutStream(opt *StreamOption, rsCfg *config.RsConfig) (*RSResumablePutStream, error) {
+func NewRSResumablePutStream(opt *StreamOption, digest string, rsCfg *config.RsConfig) (*RSResumablePutStream, error) {
 	putStream, e := NewRSPutStream(opt, rsCfg)
 	if e != nil {
 		return nil, e
@@ -51,6 +59,7 @@ func NewRSResumablePutStream(opt *StreamOption, rsCfg *config.RsConfig) (*RSResu
 	token := &resumeToken{
 		Name:     opt.Name,
 		Hash:     opt.Hash,
+		Digest:   digest,
 		Bucket:   opt.Bucket,
 		Servers:  opt.Locates,
 		Size:     opt.Size,
@@ -61,19 +70,96 @@ func NewRSResumablePutStream(opt *StreamOption, rsCfg *config.RsConfig) (*RSResu
 	return &RSResumablePutStream{putStream, token}, nil
 }
 
-// CurrentSize IO: 请求数据服务器获取分片大小
+// resumedShard continues the upload of a shard. What its server already has is skipped.
+type resumedShard struct {
+	*PutStream
+	skip      int64
+	published bool // committed before
+}
+
+func (s *resumedShard) Write(b []byte) (int, error) {
+	skip := len(b)
+	if int64(skip) > s.skip {
+		skip = int(s.skip)
+	}
+	if skip < len(b) {
+		if _, err := s.PutStream.Write(b[skip:]); err != nil {
+			return 0, err
+		}
+	}
+	s.skip -= int64(skip)
+	return len(b), nil
+}
+
+func (s *resumedShard) Commit(ok bool) error {
+	if s.published {
+		return nil
+	}
+	return s.PutStream.Commit(ok)
+}
+
+// CurrentSize IO: 请求所有数据服务器获取分片大小. The upload continues from the block that a server lacks first.
 func (p *RSResumablePutStream) CurrentSize() (int64, error) {
-	//只请求一个服务器，因为Rs算法保证每次上传到每个服务器的大小一致
-	size, err := webapi.HeadTmpObject(p.Servers[0], p.Ids[0])
-	if err != nil {
+	// an interrupted request may have reached only some of the servers, so their sizes differ
+	shardSize := int64(p.rsConfig.ShardSize(p.Size))
+	sizes := make([]int64, len(p.Ids))
+	shards := make([]*resumedShard, len(p.Ids))
+	wg := util.NewDoneGroup()
+	defer wg.Close()
+	for i, w := range p.writers {
+		shards[i] = &resumedShard{PutStream: w.(*PutStream)}
+		wg.Todo()
+		go func(idx int) {
+			defer wg.Done()
+			var err error
+			sizes[idx], err = webapi.HeadTmpObject(p.Servers[idx], p.Ids[idx])
+			if response.CheckErrStatus(http.StatusNotFound, err) &&
+				webapi.HeadObject(p.Servers[idx], shards[idx].name) == nil {
+				sizes[idx], shards[idx].published, err = shardSize, true, nil
+			}
+			if err != nil {
+				wg.Error(err)
+			}
+		}(i)
+	}
+	wg.Wait()
+	if err := wg.WaitUntilError(); err != nil {
 		return 0, err
 	}
-	//求乘积得到当前大小
-	size *= int64(p.rsConfig.DataShards)
-	if size > p.Size {
-		return p.Size, nil
+	minSize := shardSize
+	for _, size := range sizes {
+		if size < minSize {
+			minSize = size
+		}
+	}
+	current := p.Size
+	if minSize < shardSize {
+		blocks := minSize / int64(p.rsConfig.BlockPerShard)
+		minSize = blocks * int64(p.rsConfig.BlockPerShard)
+		current = blocks * int64(p.rsConfig.BlockSize())
+	}
+	for i, shard := range shards {
+		shard.skip = sizes[i] - minSize
+		p.writers[i] = shard
+	}
+	return current, nil
+}
+
+// Verify IO: reports whether the uploaded shards make up the content of the digest
+func (p *RSResumablePutStream) Verify() bool {
+	readers := make([]io.Reader, len(p.writers))
+	shardSize := int64(p.rsConfig.ShardSize(p.Size))
+	for i, w := range p.writers {
+		shard := w.(*resumedShard)
+		var reader io.ReadCloser = NewTempStream(shard.Locate, shard.tmpId, shardSize)
+		if shard.published {
+			reader = &GetStream{Locate: shard.Locate, name: shard.name, size: shardSize, compress: p.Compress}
+		}
+		defer reader.Close()
+		readers[i] = reader
 	}
-	return size, nil
+	dec := NewDecoder(readers, make([]io.Writer, len(readers)), p.Size, &p.rsConfig)
+	return crypto.SHA256IO(dec) == p.Digest
 }
 
 // Token 上传记录
-- 
2.43.0


From 70b7d985c71a3464f8dc8ef48fdeb6748735c0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:05:23 +0000
Subject: [PATCH 47/80] fix: a resumable upload of a negative size is refused

---
 src/apiserver/internal/entity/dto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/apiserver/internal/entity/dto.go b/src/apiserver/internal/entity/dto.go
index 21388e6..e44d419 100644
--- a/src/apiserver/internal/entity/dto.go
+++ b/src/apiserver/internal/entity/dto.go
@@ -43,7 +43,7 @@ type BigPostReq struct {
 	Name     string `uri:"name" binding:"required"`
 	Bucket   string `header:"bucket" binding:"required"`
 	Hash     string `header:"digest" binding:"required"`
-	Size     int64  `header:"size" binding:"required"`
+	Size     int64  `header:"size" binding:"required,min=1"`
 	Ext      string
 }
 
-- 
2.43.0


From 3e06e10d82c0265af82a6008d584c66e53eb853c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:05:23 +0000
Subject: [PATCH 48/80] fix: the callback is sent the bucket a request is
 handled with and its refusals are errors, stored credentials are never
 overwritten

---
 .../componet/auth/callback_validator.go       | 20 +++++++++++++------
 .../componet/auth/password_validator.go       |  5 ++++-
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/apiserver/internal/usecase/componet/auth/callback_validator.go b/src/apiserver/internal/usecase/componet/auth/callback_validator.go
index 42ce775..eaf8018 100644
--- a/src/apiserver/internal/usecase/componet/auth/callback_validator.go
+++ b/src/apiserver/internal/usecase/componet/auth/callback_validator.go
@@ -29,8 +29,14 @@ func (cv *CallbackValidator) Verify(token Credential) error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 	if resp.StatusCode != http.StatusOK {
-		return response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
+		status := resp.StatusCode
+		if status < http.StatusBadRequest {
+			// neither an approval nor an error, so it must not be the answer to the client
+			status = http.StatusForbidden
+		}
+		return response.NewError(status, response.MessageFromJSONBody(resp.Body))
 	}
 	return nil
 }
@@ -39,12 +45,14 @@ func (cv *CallbackValidator) Middleware(c *gin.Context) (bool, error) {
 	if !cv.cfg.Enable {
 		return false, nil
 	}
-	var bucket string
-	idx := strings.IndexByte(c.Request.Host, '.')
-	if idx > 0 {
+	// the header is what the request is handled with
+	bucket := c.GetHeader("Bucket")
+	if bucket == "" {
+		idx := strings.IndexByte(c.Request.Host, '.')
+		if idx <= 0 {
+			return false, response.NewError(http.StatusBadRequest, "Host or Header does not contains bucket")
+		}
 		bucket = c.Request.Host[:idx]
-	} else if bucket = c.GetHeader("Bucket"); bucket == "" {
-		return false, response.NewError(http.StatusBadRequest, "Host or Header does not contains bucket")
 	}
 	token := &credential.CallbackToken{
 		Bucket:   bucket,
diff --git a/src/apiserver/internal/usecase/componet/auth/password_validator.go b/src/apiserver/internal/usecase/componet/auth/password_validator.go
index dcaeeef..05a2429 100644
--- a/src/apiserver/internal/usecase/componet/auth/password_validator.go
+++ b/src/apiserver/internal/usecase/componet/auth/password_validator.go
@@ -32,8 +32,11 @@ func (pv *PasswordValidator) init(cfg *PasswordConfig) {
 	}
 	resp, err := pv.cli.Get(context.Background(), cst.EtcdPrefix.ApiCredential)
 	if err != nil {
+		// there may be a credential, it must not be overwritten
 		logs.Std().Errorf("init PasswordValidator: %s", err)
-	} else if len(resp.Kvs) != 0 || cfg.Username == "" || cfg.Password == "" {
+		return
+	}
+	if len(resp.Kvs) != 0 || cfg.Username == "" || cfg.Password == "" {
 		logs.Std().Info("exist credential, skip init admin credential")
 		return
 	}
-- 
2.43.0


From e3801fb1a765ec21b4cf7a3a27c9da0085f52cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 49/80] fix: loads of data servers are not read while they are
 updated, and large I/O loads do not overflow

---
 .../componet/selector/space_first_selector.go | 25 +++++++++++++++----
 .../componet/selector/weighted_io_first.go    | 25 ++++++++++++++-----
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/apiserver/internal/usecase/componet/selector/space_first_selector.go b/src/apiserver/internal/usecase/componet/selector/space_first_selector.go
index 9178f46..3233c96 100644
--- a/src/apiserver/internal/usecase/componet/selector/space_first_selector.go
+++ b/src/apiserver/internal/usecase/componet/selector/space_first_selector.go
@@ -12,7 +12,8 @@ import (
 
 var (
 	spaceUsedMap   = map[string]int64{}
-	spaceLock      = sync.Mutex{}
+	spaceLock      = sync.Mutex{} // held while updating
+	spaceMapLock   = sync.RWMutex{}
 	spaceUpdatedAt time.Time
 )
 
@@ -28,21 +29,33 @@ func (s *FreeSpaceFirst) fetchSpaceInfo(ds []string) {
 	defer spaceLock.Unlock()
 	for _, ip := range ds {
 		hd, err := webapi.StatObject(ip)
+		spaceMapLock.Lock()
 		if err != nil {
 			logs.Std().Errorf("update space info of %s err: %s", ip, err)
 			// ip is unreachable remove from origin
 			delete(spaceUsedMap, ip)
-			continue
+		} else {
+			spaceUsedMap[ip] = util.ToInt64(hd.Get("Capacity"))
 		}
-		spaceUsedMap[ip] = util.ToInt64(hd.Get("Capacity"))
+		spaceMapLock.Unlock()
 	}
+	spaceMapLock.Lock()
+	defer spaceMapLock.Unlock()
 	spaceUpdatedAt = time.Now()
 }
 
+func (s *FreeSpaceFirst) isOutdated() bool {
+	spaceMapLock.RLock()
+	defer spaceMapLock.RUnlock()
+	return time.Since(spaceUpdatedAt) > 1*time.Minute
+}
+
 func (s *FreeSpaceFirst) Pop(ds []string) ([]string, string) {
-	if time.Since(spaceUpdatedAt) > 1*time.Minute {
+	if s.isOutdated() {
 		s.fetchSpaceInfo(ds)
 	}
+	spaceMapLock.RLock()
+	defer spaceMapLock.RUnlock()
 	idx := slices.ExtremalIndex(ds, func(min, b string) bool {
 		minUsed, ok := spaceUsedMap[min]
 		if !ok {
@@ -61,9 +74,11 @@ func (s *FreeSpaceFirst) Pop(ds []string) ([]string, string) {
 }
 
 func (s *FreeSpaceFirst) Select(ds []string) string {
-	if time.Since(spaceUpdatedAt) > 1*time.Minute {
+	if s.isOutdated() {
 		s.fetchSpaceInfo(ds)
 	}
+	spaceMapLock.RLock()
+	defer spaceMapLock.RUnlock()
 	return slices.Extremal(ds, func(min, b string) bool {
 		minUsed, ok := spaceUsedMap[min]
 		if !ok {
diff --git a/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go b/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go
index 8d3bc7a..e9f57ba 100644
--- a/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go
+++ b/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go
@@ -17,8 +17,9 @@ var (
 	//  last update of this field.  This can provide an easy measure of both
 	//  I/O completion time and the backlog that may be accumulating.
 	//  See more: http://www.mjmwired.net/kernel/Documentation/iostats.txt
-	weightedIOMap       = map[string]int32{}
-	weightedIOLock      = sync.Mutex{}
+	weightedIOMap       = map[string]int64{}
+	weightedIOLock      = sync.Mutex{} // held while updating
+	weightedIOMapLock   = sync.RWMutex{}
 	weightedIOUpdatedAt time.Time
 )
 
@@ -34,24 +35,36 @@ func (s *WeightedIOFirst) fetchIoInfo(ds []string) {
 	defer weightedIOLock.Unlock()
 	for _, ip := range ds {
 		hd, err := webapi.StatObject(ip)
+		weightedIOMapLock.Lock()
 		if err != nil {
 			logs.Std().Errorf("update space info of %s err: %s", ip, err)
 			delete(weightedIOMap, ip)
-			continue
+		} else {
+			weightedIOMap[ip] = util.ToInt64(hd.Get("Weighted-IO"))
 		}
-		weightedIOMap[ip] = util.ToInt32(hd.Get("Weighted-IO"))
+		weightedIOMapLock.Unlock()
 	}
+	weightedIOMapLock.Lock()
+	defer weightedIOMapLock.Unlock()
 	weightedIOUpdatedAt = time.Now()
 }
 
+func (s *WeightedIOFirst) isOutdated() bool {
+	weightedIOMapLock.RLock()
+	defer weightedIOMapLock.RUnlock()
+	return time.Since(weightedIOUpdatedAt) > 1*time.Minute
+}
+
 func (s *WeightedIOFirst) Pop(ds []string) ([]string, string) {
-	if time.Since(weightedIOUpdatedAt) > 1*time.Minute {
+	if s.isOutdated() {
 		s.fetchIoInfo(ds)
 	}
+	weightedIOMapLock.RLock()
+	defer weightedIOMapLock.RUnlock()
 	idx := slices.ExtremalIndex(ds, func(target, b string) bool {
 		tWeighted, ok := weightedIOMap[target]
 		if !ok {
-			tWeighted = math.MaxInt32
+			tWeighted = math.MaxInt64
 		}
 		bWeighted, ok := weightedIOMap[b]
 		if !ok {
-- 
2.43.0


From fa8e3387a50f627635ae4b4592b239967d2e5dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 50/80] fix: an updated version is sent with its number, which
 the metadata server requires

---
 src/apiserver/internal/usecase/grpcapi/meta_server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/apiserver/internal/usecase/grpcapi/meta_server.go b/src/apiserver/internal/usecase/grpcapi/meta_server.go
index 0a16c4a..c3a0add 100644
--- a/src/apiserver/internal/usecase/grpcapi/meta_server.go
+++ b/src/apiserver/internal/usecase/grpcapi/meta_server.go
@@ -136,6 +136,7 @@ func UpdateVersion(ip, id string, body *entity.Version) error {
 	})
 	_, err = pb.NewMetadataApiClient(conn).UpdateVersion(context.Background(), &pb.Metadata{
 		Id:      id,
+		Version: body.Sequence,
 		Msgpack: bt,
 	})
 	return proto.ResolveErr(err)
-- 
2.43.0


From 4babb374db387bb6342c932f38f98b52f72f0c4f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 51/80] fix: pooled gRPC connections are looked up under the
 lock

---
 src/apiserver/internal/usecase/grpcapi/base.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/apiserver/internal/usecase/grpcapi/base.go b/src/apiserver/internal/usecase/grpcapi/base.go
index e731558..24e71b7 100644
--- a/src/apiserver/internal/usecase/grpcapi/base.go
+++ b/src/apiserver/internal/usecase/grpcapi/base.go
@@ -15,13 +15,9 @@ var (
 )
 
 func getConn(addr string) (*grpc.ClientConn, error) {
-	conn, ok := connPool[addr]
-	if ok {
-		return conn, nil
-	}
 	poolLock.Lock()
 	defer poolLock.Unlock()
-	conn, ok = connPool[addr]
+	conn, ok := connPool[addr]
 	if ok {
 		return conn, nil
 	}
-- 
2.43.0


From 2f471a368ca8cff440155eef334a2429592db9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 52/80] fix: bucket names are escaped in requests to metadata
 servers

---
 src/apiserver/internal/usecase/webapi/bucket_api.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/apiserver/internal/usecase/webapi/bucket_api.go b/src/apiserver/internal/usecase/webapi/bucket_api.go
index 18205c4..cf5f558 100644
--- a/src/apiserver/internal/usecase/webapi/bucket_api.go
+++ b/src/apiserver/internal/usecase/webapi/bucket_api.go
@@ -7,11 +7,13 @@ import (
 	"common/util"
 	"fmt"
 	"net/http"
+	"net/url"
+	"strings"
 )
 
 func GetBucket(ip, name string) (*entity.Bucket, error) {
 	defer perform(false)()
-	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("http://%s/bucket/%s", ip, name), nil)
+	req, err := http.NewRequest(http.MethodGet, bucketRest(ip, name), nil)
 	if err != nil {
 		return nil, err
 	}
@@ -28,7 +30,7 @@ func GetBucket(ip, name string) (*entity.Bucket, error) {
 
 func PutBucket(ip string, data *entity.Bucket) error {
 	defer perform(true)()
-	req, err := request.JsonReq(http.MethodPut, fmt.Sprintf("http://%s/bucket/%s", ip, data.Name), data)
+	req, err := request.JsonReq(http.MethodPut, bucketRest(ip, data.Name), data)
 	if err != nil {
 		return err
 	}
@@ -62,7 +64,7 @@ func PostBucket(ip string, data *entity.Bucket) error {
 
 func DeleteBucket(ip, name string) error {
 	defer perform(true)()
-	req, err := http.NewRequest(http.MethodDelete, fmt.Sprintf("http://%s/bucket/%s", ip, name), nil)
+	req, err := http.NewRequest(http.MethodDelete, bucketRest(ip, name), nil)
 	if err != nil {
 		return err
 	}
@@ -93,3 +95,8 @@ func ListBucket(ip, name, prefix string, size int) error {
 	}
 	return nil
 }
+
+func bucketRest(ip, name string) string {
+	// a plus would be taken for a space
+	return fmt.Sprintf("http://%s/bucket/%s", ip, strings.ReplaceAll(url.PathEscape(name), "+", "%2B"))
+}
-- 
2.43.0


From d7cade65e64ebc6c1975a2aeabbd1169203a3ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:54:10 +0000
Subject: [PATCH 53/80] fix: an object found lost when it is read is no longer
 reported as existing

---
 src/objectserver/internal/usecase/service/objects_service.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 4ea2304..68ca5c7 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -169,6 +169,8 @@ func Get(name string, offset, size int64, compress bool, writer io.Writer) (err
 
 	fullPath, ok := FindRealStoragePath(name)
 	if !ok {
+		// it has been lost since it was seen last
+		UnMarkExist(name)
 		return response.NewError(404, "object not found")
 	}
 	if compress {
-- 
2.43.0


From de6e2f7bf859a742654e6fcdb419b51024e4276c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:54:10 +0000
Subject: [PATCH 54/80] fix: reading a replicated object goes on with another
 copy when one fails

---
 .../usecase/service/copy_get_stream.go        | 51 ++++++++++++++++---
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/copy_get_stream.go b/src/apiserver/internal/usecase/service/copy_get_stream.go
index 485c720..4e9817f 100644
--- a/src/apiserver/internal/usecase/service/copy_get_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_get_stream.go
@@ -9,17 +9,20 @@ import (
 )
 
 type CopyGetStream struct {
-	reader io.ReadSeekCloser
-	writer io.WriteCloser
+	reader  io.ReadSeekCloser
+	writer  io.WriteCloser
+	opt     *StreamOption
+	current int   // index of the copy being read
+	offset  int64 // position in the object
 }
 
 func NewCopyGetStream(opt *StreamOption, rpCfg *config.ReplicationConfig) (*CopyGetStream, error) {
 	var getStream io.ReadSeekCloser
-	lost := 0
+	lost, current := 0, 0
 	for idx, loc := range opt.Locates {
 		stream, err := NewGetStream(loc, fmt.Sprint(opt.Hash, ".", idx), opt.Size, opt.Compress)
 		if err == nil {
-			getStream = stream
+			getStream, current = stream, idx
 			break
 		}
 		lost++
@@ -37,22 +40,56 @@ func NewCopyGetStream(opt *StreamOption, rpCfg *config.ReplicationConfig) (*Copy
 		fixStream = NewCopyFixStream(newLocates, opt, rpCfg)
 	}
 	return &CopyGetStream{
-		reader: getStream,
-		writer: fixStream,
+		reader:  getStream,
+		writer:  fixStream,
+		opt:     opt,
+		current: current,
 	}, nil
 }
 
+// switchCopy goes on with the next copy that can be read from the current position
+func (c *CopyGetStream) switchCopy() bool {
+	for idx := c.current + 1; idx < len(c.opt.Locates); idx++ {
+		stream, err := NewGetStream(c.opt.Locates[idx], fmt.Sprint(c.opt.Hash, ".", idx), c.opt.Size, c.opt.Compress)
+		if err == nil {
+			_, err = stream.Seek(c.offset, io.SeekStart)
+		}
+		if err != nil {
+			continue
+		}
+		util.LogErrWithPre("close broken copy", c.reader.Close())
+		c.reader, c.current = stream, idx
+		return true
+	}
+	return false
+}
+
 func (c *CopyGetStream) Read(p []byte) (n int, err error) {
 	n, err = c.reader.Read(p)
+	c.offset += int64(n)
 	if c.writer != nil && n > 0 {
 		_, inner := c.writer.Write(p[:n])
 		util.LogErrWithPre("fix copies err", inner)
 	}
+	if err != nil && err != io.EOF && c.switchCopy() {
+		err = nil
+	}
 	return
 }
 
 func (c *CopyGetStream) Seek(offset int64, whence int) (int64, error) {
-	return c.reader.Seek(offset, whence)
+	n, err := c.reader.Seek(offset, whence)
+	if err != nil && whence != io.SeekEnd && offset >= 0 {
+		// streams only seek forwards
+		c.offset += offset
+		if c.switchCopy() {
+			return offset, nil
+		}
+		c.offset -= offset
+		return n, err
+	}
+	c.offset += n
+	return n, err
 }
 
 func (c *CopyGetStream) Close() (err error) {
-- 
2.43.0


From f502bb9c66453970f35d07ca03a2e0b9b3fcd605 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 55/80] fix: listings by prefix count all matching records

---
 .../internal/usecase/logic/bucket_logic.go     | 18 +++++++++++++-----
 .../internal/usecase/repo/metadata_repo.go     | 18 +++++++++++++-----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/bucket_logic.go b/src/metaserver/internal/usecase/logic/bucket_logic.go
index ab43bc5..45f3109 100644
--- a/src/metaserver/internal/usecase/logic/bucket_logic.go
+++ b/src/metaserver/internal/usecase/logic/bucket_logic.go
@@ -127,24 +127,32 @@ func (b *BucketCrud) List(prefix string, limit int, res *[]*msg.Bucket, total *i
 		var k, v []byte
 		if prefix != "" {
 			k, v = cur.Seek(prefixBt)
-			defer func() { *total = len(*res) }()
 		} else {
 			*total = root.Stats().KeyN
 			k, v = cur.First()
 		}
-		for k != nil && len(*res) < limit {
+		for ; k != nil; k, v = cur.Next() {
 			if v == nil {
 				continue
 			}
-			if prefix != "" && !bytes.HasPrefix(k, prefixBt) {
-				break
+			if prefix != "" {
+				if !bytes.HasPrefix(k, prefixBt) {
+					break
+				}
+				*total++
+			}
+			if len(*res) >= limit {
+				if prefix == "" {
+					break
+				}
+				// only count the others
+				continue
 			}
 			var i msg.Bucket
 			if err = util.DecodeMsgp(&i, v); err != nil {
 				return err
 			}
 			*res = append(*res, &i)
-			k, v = cur.Next()
 		}
 		return nil
 	}
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index bc80d0e..c242ee9 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -255,14 +255,23 @@ func (m *MetadataRepo) ListMetadata(prefix string, size int) (lst []*msg.Metadat
 		var k, v []byte
 		if prefix != "" {
 			k, v = cur.Seek(util.StrToBytes(prefix))
-			defer func() { total = len(lst) }()
 		} else {
 			k, v = cur.First()
 			total = root.Stats().KeyN
 		}
-		for k != nil && len(lst) < size {
-			if prefix != "" && !strings.HasPrefix(util.BytesToStr(k), prefix) {
-				break
+		for ; k != nil; k, v = cur.Next() {
+			if prefix != "" {
+				if !strings.HasPrefix(util.BytesToStr(k), prefix) {
+					break
+				}
+				total++
+			}
+			if len(lst) >= size {
+				if prefix == "" {
+					break
+				}
+				// only count the others
+				continue
 			}
 			if len(v) > 0 {
 				var data msg.Metadata
@@ -271,7 +280,6 @@ func (m *MetadataRepo) ListMetadata(prefix string, size int) (lst []*msg.Metadat
 				}
 				lst = append(lst, &data)
 			}
-			k, v = cur.Next()
 		}
 		return nil
 	})
-- 
2.43.0


From a37a1a74b5d0c4a869a8fb58038c302f22e60f51 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:57:15 +0000
Subject: [PATCH 56/80] fix: the ID of metadata is made of its bucket and name

---
 src/common/proto/msg/metadata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/proto/msg/metadata.go b/src/common/proto/msg/metadata.go
index a4852a9..993c672 100644
--- a/src/common/proto/msg/metadata.go
+++ b/src/common/proto/msg/metadata.go
@@ -22,7 +22,7 @@ type Metadata struct {
 }
 
 func (z *Metadata) ID() string {
-	return fmt.Sprintf(z.Bucket, "/", z.Name)
+	return fmt.Sprint(z.Bucket, "/", z.Name)
 }
 
 type Version struct {
-- 
2.43.0


From ad4df986b7c0d6625879c905f0fbb5c2d81ed89e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:57:15 +0000
Subject: [PATCH 57/80] fix: pages of metadata beyond the last one tell the
 total, and their numbers must be positive

---
 .../internal/usecase/logic/metadata_logic.go           | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/adminserver/internal/usecase/logic/metadata_logic.go b/src/adminserver/internal/usecase/logic/metadata_logic.go
index 7c13dcd..dfce88f 100644
--- a/src/adminserver/internal/usecase/logic/metadata_logic.go
+++ b/src/adminserver/internal/usecase/logic/metadata_logic.go
@@ -25,16 +25,16 @@ type MetadataCond struct {
 	Name     string `form:"name"`
 	Bucket   string `form:"bucket"`
 	Version  int    `form:"version"`
-	Page     int    `form:"page" binding:"required"`
-	PageSize int    `form:"pageSize" binding:"required"`
+	Page     int    `form:"page" binding:"required,min=1"`
+	PageSize int    `form:"pageSize" binding:"required,min=1"`
 	OrderBy  string `form:"orderBy"`
 	Desc     bool   `form:"desc"`
 }
 
 type BucketCond struct {
 	Name     string `form:"name"`
-	Page     int    `form:"page" binding:"required"`
-	PageSize int    `form:"pageSize" binding:"required"`
+	Page     int    `form:"page" binding:"required,min=1"`
+	PageSize int    `form:"pageSize" binding:"required,min=1"`
 	OrderBy  string `form:"orderBy"`
 	Desc     bool   `form:"desc"`
 }
@@ -81,7 +81,7 @@ func (m Metadata) MetadataPaging(cond *MetadataCond) ([]*msg.Metadata, int, erro
 	if st, ed, ok := util.PagingOffset(cond.Page, cond.PageSize, len(lst)); ok {
 		return lst[st:ed], totals, nil
 	}
-	return []*msg.Metadata{}, 0, nil
+	return []*msg.Metadata{}, totals, nil
 }
 
 func (m Metadata) VersionPaging(cond MetadataCond, token string) ([]byte, int, error) {
-- 
2.43.0


From 5480a1158d737071180062aef60289ce83802ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:57:15 +0000
Subject: [PATCH 58/80] fix: the admin server escapes names of objects and
 buckets in requests to API servers

---
 src/adminserver/internal/usecase/webapi/api_server.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/adminserver/internal/usecase/webapi/api_server.go b/src/adminserver/internal/usecase/webapi/api_server.go
index 6cded40..9b7a907 100644
--- a/src/adminserver/internal/usecase/webapi/api_server.go
+++ b/src/adminserver/internal/usecase/webapi/api_server.go
@@ -13,8 +13,8 @@ import (
 )
 
 func ListVersion(ip, name, bucket string, page, pageSize int, token string) ([]byte, int, error) {
-	url := fmt.Sprintf("%s://%s/v1/metadata/%s/versions?page=%d&page_size=%d", GetSchema(), ip, name, page, pageSize)
-	req, err := http.NewRequest(http.MethodGet, url, nil)
+	name = url.PathEscape(name)
+	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("%s://%s/v1/metadata/%s/versions?page=%d&page_size=%d", GetSchema(), ip, name, page, pageSize), nil)
 	if err != nil {
 		return nil, 0, err
 	}
@@ -55,6 +55,7 @@ func PutObjects(ip, name, sha256, bucket string, fileIO io.Reader, size int64, t
 }
 
 func GetObjects(ip, name, bucket string, version int, token string) (io.ReadCloser, error) {
+	name = url.PathEscape(name)
 	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("%s://%s/v1/objects/%s?version=%d", GetSchema(), ip, name, version), nil)
 	if err != nil {
 		return nil, err
@@ -106,7 +107,7 @@ func CreateBucket(ip string, b *msg.Bucket, token string) error {
 }
 
 func UpdateBucket(ip string, b *msg.Bucket, token string) error {
-	req, err := request.JsonReq(http.MethodPut, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, b.Name), b)
+	req, err := request.JsonReq(http.MethodPut, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, url.PathEscape(b.Name)), b)
 	if err != nil {
 		return err
 	}
@@ -123,7 +124,7 @@ func UpdateBucket(ip string, b *msg.Bucket, token string) error {
 }
 
 func DeleteBucket(ip, name string, token string) error {
-	req, err := http.NewRequest(http.MethodDelete, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, name), nil)
+	req, err := http.NewRequest(http.MethodDelete, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, url.PathEscape(name)), nil)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From f53be0d1dffe8af380950397674388ba215335d6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:57:15 +0000
Subject: [PATCH 59/80] fix: a download through the admin server that breaks
 off is not answered as complete

---
 src/adminserver/internal/controller/http/object.go |  7 +++++++
 src/adminserver/internal/controller/http_server.go | 11 ++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/adminserver/internal/controller/http/object.go b/src/adminserver/internal/controller/http/object.go
index 4bdb5d1..0b0db6b 100644
--- a/src/adminserver/internal/controller/http/object.go
+++ b/src/adminserver/internal/controller/http/object.go
@@ -5,9 +5,11 @@ import (
 	"adminserver/internal/usecase/logic"
 	"adminserver/internal/usecase/pool"
 	"common/response"
+	"common/util"
 	"github.com/gin-gonic/gin"
 	"io"
 	"mime/multipart"
+	"net/http"
 )
 
 type ObjectsController struct {
@@ -57,7 +59,12 @@ func (oc *ObjectsController) Download(c *gin.Context) {
 		response.FailErr(err, c)
 		return
 	}
+	defer util.CloseAndLog(reader)
 	if _, err = io.Copy(c.Writer, reader); err != nil {
+		if c.Writer.Written() {
+			// too late to response an error, only a broken response tells it
+			panic(http.ErrAbortHandler)
+		}
 		response.FailErr(err, c)
 		return
 	}
diff --git a/src/adminserver/internal/controller/http_server.go b/src/adminserver/internal/controller/http_server.go
index ec84969..8a0f5e2 100644
--- a/src/adminserver/internal/controller/http_server.go
+++ b/src/adminserver/internal/controller/http_server.go
@@ -19,7 +19,8 @@ type HttpServer struct {
 }
 
 func NewHttpServer(port string, webFs static.ServeFileSystem) *HttpServer {
-	eng := gin.Default()
+	eng := gin.New()
+	eng.Use(gin.Logger(), gin.CustomRecovery(recovered))
 
 	randSec := uuid.New()
 	eng.Use(static.Serve("/", webFs))
@@ -56,6 +57,14 @@ func NewHttpServer(port string, webFs static.ServeFileSystem) *HttpServer {
 	return &HttpServer{Server: http.Server{Handler: eng.Handler(), Addr: ":" + port}}
 }
 
+func recovered(c *gin.Context, err any) {
+	// the connection must be closed by http server
+	if err == http.ErrAbortHandler {
+		panic(err)
+	}
+	c.AbortWithStatus(http.StatusInternalServerError)
+}
+
 func (s *HttpServer) ListenAndServe() error {
 	logs.New("http-server").Infof("server listening on %s", s.Addr)
 	logs.New("http-server").Infof("visit web-console on http://localhost" + s.Addr)
-- 
2.43.0


From 471564058b09f895eee7ee0688a01e12b7de4ecd Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:57:36 +0000
Subject: [PATCH 60/80] fix: the timelines of servers are read and written
 under a lock, and miss no report

---
 .../internal/usecase/db/server_stat_db.go     | 73 ++++++++++++++-----
 1 file changed, 55 insertions(+), 18 deletions(-)

diff --git a/src/adminserver/internal/usecase/db/server_stat_db.go b/src/adminserver/internal/usecase/db/server_stat_db.go
index 4413eb5..c1ac80b 100644
--- a/src/adminserver/internal/usecase/db/server_stat_db.go
+++ b/src/adminserver/internal/usecase/db/server_stat_db.go
@@ -56,6 +56,13 @@ func (st *statTimeline) Append(cpu *TimeStat, mem *TimeStat) {
 	}
 }
 
+func (st *statTimeline) clone() *statTimeline {
+	c := newStatTimeline()
+	c.cpu.PushBackList(st.cpu)
+	c.mem.PushBackList(st.mem)
+	return c
+}
+
 func (st *statTimeline) CPUTimeline() []*TimeStat {
 	arr := make([]*TimeStat, 0, st.cpu.Len())
 	for itr := st.cpu.Front(); itr != nil; itr = itr.Next() {
@@ -82,6 +89,7 @@ type ServerStatDB struct {
 	GroupName string
 	Services  []string
 	closeFn   func()
+	mu        sync.RWMutex // mu protects timeline and everything in it
 	timeline  map[string]map[string]*statTimeline
 }
 
@@ -97,41 +105,63 @@ func NewServerStatDB(cli ServerStatCli, groupName string, services []string) *Se
 }
 
 func (sdb *ServerStatDB) GetTimeline(servName string) map[string]*statTimeline {
-	if tls, ok := sdb.timeline[servName]; ok {
-		return tls
+	sdb.mu.RLock()
+	defer sdb.mu.RUnlock()
+	tls := make(map[string]*statTimeline, len(sdb.timeline[servName]))
+	for id, tl := range sdb.timeline[servName] {
+		tls[id] = tl.clone()
 	}
-	return map[string]*statTimeline{}
+	return tls
 }
 
 func (sdb *ServerStatDB) init() {
 	ctx, cancel := context.WithCancel(context.Background())
 	sdb.closeFn = cancel
-	var mux sync.Mutex
 	for _, name := range sdb.Services {
 		go func(v string) {
 			defer graceful.Recover()
 			prefix := cst.EtcdPrefix.FmtSystemInfo(sdb.GroupName, v, "")
-			// init value
-			res, err := sdb.Cli.Get(ctx, prefix, clientv3.WithPrefix())
-			if err != nil {
-				statLog.Errorf("init stat of %s fail, %s", v, err)
-			}
-			for _, kv := range res.Kvs {
-				mux.Lock()
-				if err := sdb.addStat(v, kv.Key, kv.Value); err != nil {
-					statLog.Error(err)
+			var rev int64 // rev is the last revision seen
+			for {
+				var err error
+				if rev, err = sdb.fetch(ctx, v, prefix, rev); err != nil {
+					statLog.Errorf("init stat of %s fail, %s", v, err)
+				} else {
+					// nothing reported since then must be missed
+					ch := sdb.Cli.Watch(ctx, prefix, clientv3.WithPrefix(), clientv3.WithRev(rev+1))
+					rev = sdb.watching(v, ch, rev)
+				}
+				select {
+				case <-ctx.Done():
+					return
+				case <-time.After(2 * time.Second):
 				}
-				mux.Unlock()
 			}
-			// watch channel
-			ch := sdb.Cli.Watch(ctx, prefix, clientv3.WithPrefix())
-			sdb.watching(v, ch)
 		}(name)
 	}
 }
 
+// fetch adds current stats of serv which are newer than rev, returns the revision they were read at
+func (sdb *ServerStatDB) fetch(ctx context.Context, serv, prefix string, rev int64) (int64, error) {
+	res, err := sdb.Cli.Get(ctx, prefix, clientv3.WithPrefix())
+	if err != nil {
+		return rev, err
+	}
+	for _, kv := range res.Kvs {
+		if kv.ModRevision <= rev {
+			continue
+		}
+		if err := sdb.addStat(serv, kv.Key, kv.Value); err != nil {
+			statLog.Error(err)
+		}
+	}
+	return res.Header.Revision, nil
+}
+
 func (sdb *ServerStatDB) addStat(serv string, key, value []byte) error {
 	ts := time.Now()
+	sdb.mu.Lock()
+	defer sdb.mu.Unlock()
 	mp, ok := sdb.timeline[serv]
 	if !ok {
 		mp = map[string]*statTimeline{}
@@ -158,9 +188,15 @@ func (sdb *ServerStatDB) addStat(serv string, key, value []byte) error {
 	return nil
 }
 
-func (sdb *ServerStatDB) watching(serv string, ch clientv3.WatchChan) {
+// watching adds all reported stats until the watch ends, returns the last revision seen
+func (sdb *ServerStatDB) watching(serv string, ch clientv3.WatchChan, rev int64) int64 {
 	for v := range ch {
+		if err := v.Err(); err != nil {
+			statLog.Errorf("watch stat of %s abort: %s", serv, err)
+			return rev
+		}
 		for _, event := range v.Events {
+			rev = event.Kv.ModRevision
 			if event.Type != mvccpb.PUT {
 				continue
 			}
@@ -169,6 +205,7 @@ func (sdb *ServerStatDB) watching(serv string, ch clientv3.WatchChan) {
 			}
 		}
 	}
+	return rev
 }
 
 func (sdb *ServerStatDB) Close() error {
-- 
2.43.0


From 79d4fc693ee886b4b16822f940c6b3cf8cfeb472 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 61/80] fix: administrative requests need a token the API
 servers accept, and logging out ends the session

---
 .../internal/controller/http/auth.go          | 32 ++++++++++++++++---
 .../usecase/logic/api_server_logic.go         | 11 +++++++
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/adminserver/internal/controller/http/auth.go b/src/adminserver/internal/controller/http/auth.go
index 3b2e95d..38818c9 100644
--- a/src/adminserver/internal/controller/http/auth.go
+++ b/src/adminserver/internal/controller/http/auth.go
@@ -17,6 +17,10 @@ func SaveToken(c *gin.Context) {
 	sess := sessions.Default(c)
 	originToken := sess.Get(authTokenKey)
 	authToken := c.GetHeader("Authorization")
+	if authToken == "" {
+		// keep the token of the session
+		return
+	}
 	if originToken != nil && originToken.(string) == authToken {
 		return
 	}
@@ -35,28 +39,46 @@ func GetAuthToken(c *gin.Context) string {
 }
 
 func RequireToken(c *gin.Context) {
-	if GetAuthToken(c) == "" {
+	token := GetAuthToken(c)
+	if token == "" {
 		response.Exec(c).Abort().Fail(403, "invalid credential")
 		return
 	}
+	// only api server knows whether it is valid
+	if err := checkToken(token); err != nil {
+		c.Abort()
+		response.FailErr(err, c)
+		return
+	}
 	c.Next()
 }
 
 func ClearCredential(router gin.IRouter) {
 	router.POST("/logout", func(c *gin.Context) {
-		sessions.Default(c).Clear()
+		sess := sessions.Default(c)
+		sess.Clear()
+		if err := sess.Save(); err != nil {
+			response.FailErr(err, c)
+			return
+		}
 		response.Ok(c)
 	})
 }
 
 func CheckCredential(router gin.IRouter) {
 	router.POST("/login", func(c *gin.Context) {
-		token := GetAuthToken(c)
-		err := webapi.CheckToken(logic.SelectApiServer(), token)
-		if err != nil {
+		if err := checkToken(GetAuthToken(c)); err != nil {
 			response.FailErr(err, c)
 			return
 		}
 		response.Ok(c)
 	})
 }
+
+func checkToken(token string) error {
+	ip, err := logic.FindApiServer()
+	if err != nil {
+		return err
+	}
+	return webapi.CheckToken(ip, token)
+}
diff --git a/src/adminserver/internal/usecase/logic/api_server_logic.go b/src/adminserver/internal/usecase/logic/api_server_logic.go
index 509c17c..8c56740 100644
--- a/src/adminserver/internal/usecase/logic/api_server_logic.go
+++ b/src/adminserver/internal/usecase/logic/api_server_logic.go
@@ -3,10 +3,21 @@ package logic
 import (
 	"adminserver/internal/usecase/pool"
 	"adminserver/internal/usecase/webapi"
+	"common/response"
 	"math/rand"
+	"net/http"
 	"time"
 )
 
+// FindApiServer is SelectApiServer, but tells when there is none
+func FindApiServer() (string, error) {
+	servers := pool.Discovery.GetServices(pool.Config.Discovery.ApiServName)
+	if len(servers) == 0 {
+		return "", response.NewError(http.StatusServiceUnavailable, "no api server available")
+	}
+	return servers[rand.Intn(len(servers))], nil
+}
+
 func SelectApiServer() string {
 	servers := pool.Discovery.GetServices(pool.Config.Discovery.ApiServName)
 	rand.Seed(time.Now().Unix())
-- 
2.43.0


From a177e1b26089a1109ad7c3bdeaa0497f45339c21 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 01:23:02 +0000
Subject: [PATCH 62/80] fix: a server is registered again after calls of etcd
 failed, and not after it stopped

---
 src/common/registry/etcd_lifecycle.go | 32 +++++++---
 src/common/registry/etcd_registry.go  | 91 ++++++++++++++++++++++++---
 2 files changed, 104 insertions(+), 19 deletions(-)

diff --git a/src/common/registry/etcd_lifecycle.go b/src/common/registry/etcd_lifecycle.go
index 927c85f..9b7b557 100644
--- a/src/common/registry/etcd_lifecycle.go
+++ b/src/common/registry/etcd_lifecycle.go
@@ -16,6 +16,7 @@ type Lifecycle struct {
 	ctx         context.Context
 	cancel      func()
 	notifyLease []func(id clientv3.LeaseID)
+	notifyMux   []*sync.Mutex // notifyMux keeps calls of a subscriber in order
 }
 
 func NewLifecycle(cli clientv3.Lease, ttl time.Duration) *Lifecycle {
@@ -30,11 +31,14 @@ func NewLifecycle(cli clientv3.Lease, ttl time.Duration) *Lifecycle {
 }
 
 func (lc *Lifecycle) notifying() {
-	for _, f := range lc.notifyLease {
-		go func(fn func(id clientv3.LeaseID)) {
+	for i, f := range lc.notifyLease {
+		go func(fn func(id clientv3.LeaseID), mux *sync.Mutex) {
 			defer graceful.Recover()
-			fn(lc.lease)
-		}(f)
+			mux.Lock()
+			defer mux.Unlock()
+			// always the latest one, calls may be delayed
+			fn(lc.Lease())
+		}(f, lc.notifyMux[i])
 	}
 }
 
@@ -47,14 +51,18 @@ func (lc *Lifecycle) Lease() clientv3.LeaseID {
 func (lc *Lifecycle) DeadLoop() {
 	defer graceful.Recover()
 	for {
-		// lock to update lease
-		lc.mux.Lock()
-		leaseResp, err := lc.Client.Grant(context.Background(), int64(lc.ttl.Seconds()))
+		leaseResp, err := lc.Client.Grant(lc.ctx, int64(lc.ttl.Seconds()))
 		if err != nil {
 			registryLog.Errorf("grant lifecycle lease err: %s", err)
-			time.Sleep(5 * time.Second)
+			select {
+			case <-lc.ctx.Done():
+				return
+			case <-time.After(5 * time.Second):
+			}
 			continue
 		}
+		// lock to update lease
+		lc.mux.Lock()
 		lc.lease = leaseResp.ID
 		lc.mux.Unlock()
 
@@ -65,7 +73,12 @@ func (lc *Lifecycle) DeadLoop() {
 		response, err := lc.Client.KeepAlive(lc.ctx, lc.lease)
 		if err != nil {
 			registryLog.Errorf("could not keepalive for lifecycle lease %d, err: %s", lc.lease, err)
-			time.Sleep(5 * time.Second)
+			select {
+			case <-lc.ctx.Done():
+				_, _ = lc.Client.Revoke(context.Background(), lc.lease)
+				return
+			case <-time.After(5 * time.Second):
+			}
 			continue
 		}
 		for r := range response {
@@ -86,6 +99,7 @@ func (lc *Lifecycle) DeadLoop() {
 
 func (lc *Lifecycle) Subscribe(fn func(id clientv3.LeaseID)) {
 	lc.notifyLease = append(lc.notifyLease, fn)
+	lc.notifyMux = append(lc.notifyMux, new(sync.Mutex))
 }
 
 func (lc *Lifecycle) Close() error {
diff --git a/src/common/registry/etcd_registry.go b/src/common/registry/etcd_registry.go
index cde1787..f6c3f99 100644
--- a/src/common/registry/etcd_registry.go
+++ b/src/common/registry/etcd_registry.go
@@ -3,12 +3,17 @@ package registry
 import (
 	"bytes"
 	. "common/cst"
+	"common/graceful"
 	"common/logs"
 	"common/util"
 	"context"
+	"errors"
 	"fmt"
 	"strings"
+	"sync"
+	"time"
 
+	"go.etcd.io/etcd/api/v3/v3rpc/rpctypes"
 	clientv3 "go.etcd.io/etcd/client/v3"
 )
 
@@ -18,8 +23,12 @@ type EtcdRegistry struct {
 	cli     *clientv3.Client
 	cfg     Config
 	stdName string
-	name    string
 	addr    string
+
+	mux        sync.Mutex // mux protects the followings and keeps changes of the registration in order
+	name       string
+	registered string // registered is the key which has been registered
+	attempt    int    // attempt counts changes, a failed registration is only retried until the next change
 }
 
 func NewEtcdRegistry(kv *clientv3.Client, cfg *Config) *EtcdRegistry {
@@ -39,8 +48,9 @@ func NewEtcdRegistry(kv *clientv3.Client, cfg *Config) *EtcdRegistry {
 }
 
 const (
-	roleMaster = "master"
-	roleSlave  = "slave"
+	roleMaster    = "master"
+	roleSlave     = "slave"
+	retryInterval = time.Second
 )
 
 // cutRole splits the last part of a registered key into server id and role. role is empty if it has none
@@ -54,19 +64,31 @@ func cutRole(s string) (sid, role string) {
 }
 
 func (e *EtcdRegistry) Key() string {
+	e.mux.Lock()
+	defer e.mux.Unlock()
+	return e.key()
+}
+
+func (e *EtcdRegistry) key() string {
 	return EtcdPrefix.FmtRegistry(e.cfg.Group, e.name)
 }
 
 func (e *EtcdRegistry) AsMaster() *EtcdRegistry {
-	e.name = fmt.Sprint(e.stdName, "_", "master")
+	e.setName(fmt.Sprint(e.stdName, "_", roleMaster))
 	return e
 }
 
 func (e *EtcdRegistry) AsSlave() *EtcdRegistry {
-	e.name = fmt.Sprint(e.stdName, "_", "slave")
+	e.setName(fmt.Sprint(e.stdName, "_", roleSlave))
 	return e
 }
 
+func (e *EtcdRegistry) setName(name string) {
+	e.mux.Lock()
+	defer e.mux.Unlock()
+	e.name = name
+}
+
 func (e *EtcdRegistry) GetServiceMapping(name string) map[string]string {
 	resp, err := e.cli.Get(context.Background(), EtcdPrefix.FmtRegistry(e.cfg.Group, name)+"/", clientv3.WithPrefix())
 	if err != nil {
@@ -104,15 +126,64 @@ func (e *EtcdRegistry) GetService(name string, id string) (string, bool) {
 	return v, ok
 }
 
+// Register with the lease, it is retried in background if fails
 func (e *EtcdRegistry) Register(id clientv3.LeaseID) {
-	if _, err := e.cli.Put(context.Background(), e.Key(), e.addr, clientv3.WithLease(id)); err != nil {
+	e.mux.Lock()
+	defer e.mux.Unlock()
+	e.attempt++
+	if err := e.register(id); err != nil && !errors.Is(err, rpctypes.ErrLeaseNotFound) {
+		go e.retryRegister(id, e.attempt)
+	}
+}
+
+func (e *EtcdRegistry) register(id clientv3.LeaseID) error {
+	key := e.key()
+	if _, err := e.cli.Put(context.Background(), key, e.addr, clientv3.WithLease(id)); err != nil {
 		registryLog.Errorf("register %s fails: %s", e.addr, err)
-		return
+		return err
+	}
+	// it must not be known by two roles
+	if e.registered != "" && e.registered != key {
+		if _, err := e.cli.Delete(context.Background(), e.registered); err != nil {
+			registryLog.Errorf("unregister %s fails: %s", e.registered, err)
+			return err
+		}
+	}
+	e.registered = key
+	registryLog.Infof("register %s success", key)
+	return nil
+}
+
+func (e *EtcdRegistry) retryRegister(id clientv3.LeaseID, attempt int) {
+	defer graceful.Recover()
+	for {
+		time.Sleep(retryInterval)
+		if done := func() bool {
+			e.mux.Lock()
+			defer e.mux.Unlock()
+			if e.attempt != attempt {
+				return true
+			}
+			err := e.register(id)
+			return err == nil || errors.Is(err, rpctypes.ErrLeaseNotFound)
+		}(); done {
+			return
+		}
 	}
-	registryLog.Infof("register %s success", e.Key())
 }
 
 func (e *EtcdRegistry) Unregister() error {
-	_, err := e.cli.Delete(context.Background(), e.Key())
-	return err
+	e.mux.Lock()
+	defer e.mux.Unlock()
+	e.attempt++
+	if e.registered != "" && e.registered != e.key() {
+		if _, err := e.cli.Delete(context.Background(), e.registered); err != nil {
+			return err
+		}
+	}
+	if _, err := e.cli.Delete(context.Background(), e.key()); err != nil {
+		return err
+	}
+	e.registered = ""
+	return nil
 }
-- 
2.43.0


From 8aa512f008ecdbb027ff60e6e4115a25c3dc8929 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 01:23:02 +0000
Subject: [PATCH 63/80] fix: a metadata server is registered in the role it got
 last

---
 .../internal/usecase/logic/registry_logic.go  | 17 ++++-
 .../internal/usecase/raftimpl/raft_impl.go    | 63 ++++++++++++++++---
 2 files changed, 71 insertions(+), 9 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/registry_logic.go b/src/metaserver/internal/usecase/logic/registry_logic.go
index 5655d0b..159cfee 100644
--- a/src/metaserver/internal/usecase/logic/registry_logic.go
+++ b/src/metaserver/internal/usecase/logic/registry_logic.go
@@ -2,6 +2,8 @@ package logic
 
 import (
 	"metaserver/internal/usecase/pool"
+
+	clientv3 "go.etcd.io/etcd/client/v3"
 )
 
 type Registry struct{}
@@ -11,8 +13,19 @@ func NewRegistry() Registry { return Registry{} }
 func (Registry) OnLeaderChanged(isLeader bool) {
 	pool.Registry.Unregister()
 	if isLeader {
-		pool.Registry.AsMaster().Register(pool.Lifecycle.Lease())
+		pool.Registry.AsMaster()
 	} else {
-		pool.Registry.AsSlave().Register(pool.Lifecycle.Lease())
+		pool.Registry.AsSlave()
+	}
+	// it will be registered when the first lease is granted
+	id := pool.Lifecycle.Lease()
+	for id != clientv3.NoLease {
+		pool.Registry.Register(id)
+		// the lease may have been replaced at the same time
+		latest := pool.Lifecycle.Lease()
+		if latest == id {
+			break
+		}
+		id = latest
 	}
 }
diff --git a/src/metaserver/internal/usecase/raftimpl/raft_impl.go b/src/metaserver/internal/usecase/raftimpl/raft_impl.go
index 5b42dec..ecbb77a 100644
--- a/src/metaserver/internal/usecase/raftimpl/raft_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/raft_impl.go
@@ -14,6 +14,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"sync"
 
 	"github.com/hashicorp/raft"
 	boltdb "github.com/hashicorp/raft-boltdb/v2"
@@ -21,6 +22,41 @@ import (
 
 var raftLog = logs.New("raft-impl")
 
+// leaderChangedEvent handles changes in background one after another
+type leaderChangedEvent struct {
+	event   IRaftLeaderChanged
+	mux     sync.Mutex
+	pending []bool
+}
+
+func (e *leaderChangedEvent) push(isLeader bool) {
+	e.mux.Lock()
+	defer e.mux.Unlock()
+	e.pending = append(e.pending, isLeader)
+	if len(e.pending) == 1 {
+		go e.handle()
+	}
+}
+
+func (e *leaderChangedEvent) handle() {
+	for {
+		e.mux.Lock()
+		isLeader := e.pending[0]
+		e.mux.Unlock()
+		func() {
+			defer graceful.Recover()
+			e.event.OnLeaderChanged(isLeader)
+		}()
+		e.mux.Lock()
+		e.pending = e.pending[1:]
+		done := len(e.pending) == 0
+		e.mux.Unlock()
+		if done {
+			return
+		}
+	}
+}
+
 type RaftWrapper struct {
 	Raft                *raft.Raft
 	Manager             *transport.Manager
@@ -28,7 +64,8 @@ type RaftWrapper struct {
 	Address             string
 	Enabled             bool
 	isLeader            bool
-	leaderChangedEvents []IRaftLeaderChanged
+	eventMux            sync.Mutex
+	leaderChangedEvents []*leaderChangedEvent
 	closeRaftStore      func()
 }
 
@@ -153,19 +190,24 @@ func (rw *RaftWrapper) subscribeLeaderCh() {
 	go func() {
 		defer graceful.Recover()
 		for is := range rw.Raft.LeaderCh() {
+			rw.eventMux.Lock()
 			rw.isLeader = is
-			rw.OnLeaderChanged(is)
+			rw.notify(is)
+			rw.eventMux.Unlock()
 			raftLog.Infof("server %s leader", util.IfElse(is, "become", "lose"))
 		}
 	}()
 }
 
 func (rw *RaftWrapper) OnLeaderChanged(isLeader bool) {
+	rw.eventMux.Lock()
+	defer rw.eventMux.Unlock()
+	rw.notify(isLeader)
+}
+
+func (rw *RaftWrapper) notify(isLeader bool) {
 	for _, event := range rw.leaderChangedEvents {
-		go func(e IRaftLeaderChanged) {
-			defer graceful.Recover()
-			e.OnLeaderChanged(isLeader)
-		}(event)
+		event.push(isLeader)
 	}
 }
 
@@ -176,7 +218,14 @@ func (rw *RaftWrapper) Init() {
 }
 
 func (rw *RaftWrapper) RegisterLeaderChangedEvent(event IRaftLeaderChanged) {
-	rw.leaderChangedEvents = append(rw.leaderChangedEvents, event)
+	rw.eventMux.Lock()
+	defer rw.eventMux.Unlock()
+	e := &leaderChangedEvent{event: event}
+	rw.leaderChangedEvents = append(rw.leaderChangedEvents, e)
+	// may have become leader before registering
+	if rw.isLeader {
+		e.push(true)
+	}
 }
 
 func (rw *RaftWrapper) GetRaftIfLeader() (IRaft, bool) {
-- 
2.43.0


From c360cc1ef289331a4abf24918ca707d8691518f3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 01:49:32 +0000
Subject: [PATCH 64/80] fix: a restored database holds nothing of an earlier,
 failed restore

---
 src/metaserver/internal/usecase/repo/metadata_repo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index c242ee9..894af37 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -293,7 +293,7 @@ func (m *MetadataRepo) Snapshot() (usecase.SnapshotTx, error) {
 func (m *MetadataRepo) Restore(r io.Reader) (err error) {
 	dbPath := m.MainDB.DB().Path() + "_replace"
 	// open new db file
-	newFile, err := os.OpenFile(dbPath, os.O_WRONLY|os.O_CREATE, cst.OS.ModeUser)
+	newFile, err := os.OpenFile(dbPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, cst.OS.ModeUser)
 	if err != nil {
 		logs.Std().Errorf("restore fail on open new file: %v", err)
 		return err
-- 
2.43.0


From d4a38d2bc2d60145c0573b188255fc382019af38 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 02:39:30 +0000
Subject: [PATCH 65/80] fix: a data size in YAML is written exactly

A metadata server that saved its configuration came back with another cache
size: 1536KB was written as 2MB.
---
 src/common/datasize/yaml_env.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/common/datasize/yaml_env.go b/src/common/datasize/yaml_env.go
index c5aabf0..9203ea4 100644
--- a/src/common/datasize/yaml_env.go
+++ b/src/common/datasize/yaml_env.go
@@ -1,6 +1,9 @@
 package datasize
 
-import "gopkg.in/yaml.v3"
+import (
+	"fmt"
+	"gopkg.in/yaml.v3"
+)
 
 func (d *DataSize) UnmarshalYAML(node *yaml.Node) error {
 	res, err := Parse(node.Value)
@@ -21,5 +24,10 @@ func (d *DataSize) SetValue(s string) error {
 }
 
 func (d DataSize) MarshalYAML() (interface{}, error) {
-	return d.String(), nil
+	// the exact size, unlike String
+	i := len(units) - 1
+	for i > 0 && (d == 0 || d%units[i].value != 0) {
+		i--
+	}
+	return fmt.Sprintf("%d%s", d/units[i].value, units[i].name), nil
 }
-- 
2.43.0


From e547e99a3dd67a79e4eefbdd78b63d34c80cdad2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 02:39:30 +0000
Subject: [PATCH 66/80] fix: saving the configuration replaces the file as a
 whole

A full disk or a crash while a metadata server saved its configuration, with
the slots it owns, left an empty or truncated file: it could not start again.
---
 src/metaserver/config/config.go | 51 +++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/src/metaserver/config/config.go b/src/metaserver/config/config.go
index 54e37db..875ee22 100644
--- a/src/metaserver/config/config.go
+++ b/src/metaserver/config/config.go
@@ -1,6 +1,7 @@
 package config
 
 import (
+	"bytes"
 	"common/cst"
 	"common/datasize"
 	"common/etcd"
@@ -56,21 +57,53 @@ func (c *Config) initialize(filePath string) {
 func (c *Config) Persist() error {
 	c.persistLock.Lock()
 	defer c.persistLock.Unlock()
-	fi, err := os.OpenFile(c.filePath, cst.OS.WriteFlag, cst.OS.ModeUser)
-	if err != nil {
-		return fmt.Errorf("write data to config '%s': %w", c.filePath, err)
-	}
-	defer fi.Close()
-	enc := yaml.NewEncoder(fi)
-	defer enc.Close()
+	bt := bytes.NewBuffer(nil)
+	enc := yaml.NewEncoder(bt)
 	enc.SetIndent(2)
-	err = enc.Encode(c)
-	if err != nil {
+	if err := enc.Encode(c); err != nil {
+		return fmt.Errorf("marshal config to yaml: %w", err)
+	}
+	if err := enc.Close(); err != nil {
 		return fmt.Errorf("marshal config to yaml: %w", err)
 	}
+	if err := c.replaceFile(bt.Bytes()); err != nil {
+		return fmt.Errorf("write data to config '%s': %w", c.filePath, err)
+	}
 	return nil
 }
 
+// replaceFile replaces the config file as a whole, the existing one remains if it fails
+func (c *Config) replaceFile(bt []byte) error {
+	path := c.filePath
+	if target, err := filepath.EvalSymlinks(path); err == nil {
+		path = target
+	}
+	tmp := path + ".tmp"
+	fi, err := os.OpenFile(tmp, cst.OS.WriteFlag, cst.OS.ModeUser)
+	if err != nil {
+		return err
+	}
+	if info, err1 := os.Stat(path); err1 == nil {
+		err = fi.Chmod(info.Mode())
+	}
+	if err == nil {
+		_, err = fi.Write(bt)
+	}
+	if err == nil {
+		err = fi.Sync()
+	}
+	if err1 := fi.Close(); err == nil {
+		err = err1
+	}
+	if err == nil {
+		err = os.Rename(tmp, path)
+	}
+	if err != nil {
+		_ = os.Remove(tmp)
+	}
+	return err
+}
+
 type CacheConfig struct {
 	TTL           time.Duration     `yaml:"ttl" env:"TTL" env-default:"20m"`
 	CleanInterval time.Duration     `yaml:"clean-interval" env:"CLEAN_INTERVAL" env-default:"10m"`
-- 
2.43.0


From 3cfd49aeeba22c170fb6c95d90a9e73b93b241b2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 02:39:30 +0000
Subject: [PATCH 67/80] fix: connections of the admin server are looked up
 under their lock

Requests at the same time read and wrote the map at once, which ends the process.
---
 src/adminserver/internal/usecase/logic/conn.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/adminserver/internal/usecase/logic/conn.go b/src/adminserver/internal/usecase/logic/conn.go
index 4d67865..7270a07 100644
--- a/src/adminserver/internal/usecase/logic/conn.go
+++ b/src/adminserver/internal/usecase/logic/conn.go
@@ -15,13 +15,9 @@ var (
 )
 
 func getConn(addr string) (*grpc.ClientConn, error) {
-	conn, ok := connPool[addr]
-	if ok {
-		return conn, nil
-	}
 	poolLock.Lock()
 	defer poolLock.Unlock()
-	conn, ok = connPool[addr]
+	conn, ok := connPool[addr]
 	if ok {
 		return conn, nil
 	}
-- 
2.43.0


From 34194471527e7a295c001c22645f8f2a0712cc37 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 02:42:43 +0000
Subject: [PATCH 68/80] fix: a refused leave of a raft group is reported as
 such

The admin server reported success whatever the metadata server answered.
---
 .../internal/usecase/logic/metadata_logic.go           | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/adminserver/internal/usecase/logic/metadata_logic.go b/src/adminserver/internal/usecase/logic/metadata_logic.go
index dfce88f..c70ff91 100644
--- a/src/adminserver/internal/usecase/logic/metadata_logic.go
+++ b/src/adminserver/internal/usecase/logic/metadata_logic.go
@@ -192,8 +192,14 @@ func (m Metadata) LeaveRaftCluster(servId string) error {
 	if err != nil {
 		return err
 	}
-	_, err = pb.NewRaftCmdClient(cc).LeaveCluster(context.Background(), new(pb.EmptyReq))
-	return err
+	resp, err := pb.NewRaftCmdClient(cc).LeaveCluster(context.Background(), new(pb.EmptyReq))
+	if err != nil {
+		return err
+	}
+	if !resp.Success {
+		return response.NewError(400, resp.Message)
+	}
+	return nil
 }
 
 func (m Metadata) JoinRaftCluster(masterId, servId string) error {
-- 
2.43.0


From d821423ad9110fe27eae1144535d40e4c82031e3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 03:19:41 +0000
Subject: [PATCH 69/80] fix: versions of a missing object are not found

---
 src/metaserver/internal/controller/grpc/metadata_server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/controller/grpc/metadata_server.go b/src/metaserver/internal/controller/grpc/metadata_server.go
index 7ddc199..2b198c6 100644
--- a/src/metaserver/internal/controller/grpc/metadata_server.go
+++ b/src/metaserver/internal/controller/grpc/metadata_server.go
@@ -32,7 +32,7 @@ func (m *MetadataApiServer) GetVersionsByHash(_ context.Context, req *pb.MetaReq
 	}
 	res, err := m.Service.FindByHash(req.Hash)
 	if err != nil {
-		return nil, err
+		return nil, response.GRPCError(err)
 	}
 	bt, err := util.EncodeArrayMsgp(res)
 	if err != nil {
@@ -50,7 +50,7 @@ func (m *MetadataApiServer) ListVersion(_ context.Context, req *pb.MetaReq) (*pb
 	}
 	res, total, err := m.Service.ListVersions(req.Id, int(req.Page.Page), int(req.Page.PageSize))
 	if err != nil {
-		return nil, err
+		return nil, response.GRPCError(err)
 	}
 	bt, err := util.EncodeArrayMsgp(res)
 	if err != nil {
-- 
2.43.0


From 1c35c778b3bc48583e86f79807fe7464db6087fa Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 03:19:41 +0000
Subject: [PATCH 70/80] fix: the status of a refused removal of a version is
 kept

---
 src/apiserver/internal/usecase/grpcapi/meta_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/apiserver/internal/usecase/grpcapi/meta_server.go b/src/apiserver/internal/usecase/grpcapi/meta_server.go
index c3a0add..f1c6129 100644
--- a/src/apiserver/internal/usecase/grpcapi/meta_server.go
+++ b/src/apiserver/internal/usecase/grpcapi/meta_server.go
@@ -239,5 +239,5 @@ func RemoveVersion(ip, id string, version int32) error {
 		return err
 	}
 	_, err = pb.NewMetadataApiClient(conn).RemoveVersion(context.Background(), &pb.MetaReq{Id: id, Version: version})
-	return err
+	return proto.ResolveErr(err)
 }
-- 
2.43.0


From 38a9562546869aacb2e622a5fb7ff1691d0cd177 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 03:19:41 +0000
Subject: [PATCH 71/80] fix: a wrapped error keeps its status

---
 src/common/response/response.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/response/response.go b/src/common/response/response.go
index f1687c3..73d5bc9 100644
--- a/src/common/response/response.go
+++ b/src/common/response/response.go
@@ -3,6 +3,7 @@ package response
 import (
 	"common/logs"
 	"common/util"
+	"errors"
 	"fmt"
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
@@ -107,6 +108,11 @@ func ServiceUnavailableErr(err error, c *gin.Context) *GinExecutor {
 }
 
 func FailErr(err error, c *gin.Context) *GinExecutor {
+	// the status may be that of a wrapped error
+	var respErr IErr
+	if errors.As(err, &respErr) {
+		err = respErr
+	}
 	switch err := err.(type) {
 	case validator.ValidationErrors, *validator.ValidationErrors:
 		BadRequestErr(err, c)
-- 
2.43.0


From 62367ee422aa8aee4820b560e67d8c7cb7770e3d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 03:37:19 +0000
Subject: [PATCH 72/80] fix: slots read earlier never replace those read later

---
 .../internal/usecase/db/hashslot_db.go        | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/metaserver/internal/usecase/db/hashslot_db.go b/src/metaserver/internal/usecase/db/hashslot_db.go
index 6f1478f..6dc4ec0 100644
--- a/src/metaserver/internal/usecase/db/hashslot_db.go
+++ b/src/metaserver/internal/usecase/db/hashslot_db.go
@@ -10,6 +10,7 @@ import (
 	"time"
 
 	clientv3 "go.etcd.io/etcd/client/v3"
+	"sync"
 	"sync/atomic"
 )
 
@@ -44,7 +45,8 @@ type HashSlotDB struct {
 	kv             clientv3.KV
 	status         *atomic.Int32
 	provider       *atomic.Pointer[hashslot.IEdgeProvider]
-	updatedAt      int64
+	reloading      sync.Mutex
+	updatedAt      atomic.Int64
 	migratingSlots []string
 	migratingHost  string
 	KeyPrefix      string
@@ -74,21 +76,23 @@ func (h *HashSlotDB) GetMigrateFrom() (bool, string, []string) {
 }
 
 func (h *HashSlotDB) IsExpired() bool {
-	return time.Now().Unix()-h.updatedAt > MaxExpireUnix
+	return time.Now().Unix()-h.updatedAt.Load() > MaxExpireUnix
 }
 
 // GetEdgeProvider identify is http-location of server
 func (h *HashSlotDB) GetEdgeProvider(reload bool) (hashslot.IEdgeProvider, error) {
-	item := h.provider.Load()
 	if h.IsExpired() || reload {
-		if err := h.reloadProvider(item); err != nil {
+		if err := h.reloadProvider(); err != nil {
 			return nil, err
 		}
 	}
 	return *h.provider.Load(), nil
 }
 
-func (h *HashSlotDB) reloadProvider(old *hashslot.IEdgeProvider) error {
+func (h *HashSlotDB) reloadProvider() error {
+	// what is read first must not replace what is read later
+	h.reloading.Lock()
+	defer h.reloading.Unlock()
 	slotsMap := make(map[string][]string)
 	// get slots data from etcd (only master saves into to etcd)
 	res, err := h.kv.Get(context.Background(), h.KeyPrefix, clientv3.WithPrefix())
@@ -107,10 +111,10 @@ func (h *HashSlotDB) reloadProvider(old *hashslot.IEdgeProvider) error {
 	if err != nil {
 		return fmt.Errorf("reloadProvider: %w", err)
 	}
-	if h.provider.CompareAndSwap(old, &data) {
-		h.updatedAt = time.Now().Unix()
-		hsLog.Infof("update hash-slots success at %d", h.updatedAt)
-	}
+	h.provider.Store(&data)
+	now := time.Now().Unix()
+	h.updatedAt.Store(now)
+	hsLog.Infof("update hash-slots success at %d", now)
 	return nil
 }
 
-- 
2.43.0


From 45dc1abfeba03d9b7ee09cdd913363804ee2dcfe Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 03:37:19 +0000
Subject: [PATCH 73/80] fix: a follower serves its group's keys under a new
 leader

---
 .../internal/usecase/logic/hashslot_logic.go         | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/metaserver/internal/usecase/logic/hashslot_logic.go b/src/metaserver/internal/usecase/logic/hashslot_logic.go
index 6e1260d..fe278a9 100644
--- a/src/metaserver/internal/usecase/logic/hashslot_logic.go
+++ b/src/metaserver/internal/usecase/logic/hashslot_logic.go
@@ -13,11 +13,21 @@ func NewHashSlot() HashSlot { return HashSlot{} }
 
 func (h HashSlot) IsKeyOnThisServer(key string) (bool, string) {
 	id, err := pool.HashSlot.GetKeyIdentify(key)
+	if err == nil && !h.isThisServer(id) {
+		// the slots may have been given to this server, or its group may have another leader, in the meantime
+		if _, err = pool.HashSlot.GetEdgeProvider(true); err == nil {
+			id, err = pool.HashSlot.GetKeyIdentify(key)
+		}
+	}
 	if err != nil {
 		logs.Std().Error(err)
 		return false, ""
 	}
-	return id == pool.Config.Registry.SID() || id == pool.RaftWrapper.LeaderID(), id
+	return h.isThisServer(id), id
+}
+
+func (HashSlot) isThisServer(id string) bool {
+	return id == pool.Config.Registry.SID() || id == pool.RaftWrapper.LeaderID()
 }
 
 func (HashSlot) GetSlotsProvider() (hashslot.IEdgeProvider, error) {
-- 
2.43.0


From 7ffec5840b1dd89f2fec2853b2c7cfb326c06011 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 04:33:23 +0000
Subject: [PATCH 74/80] fix: writes under way when slots begin to migrate move
 along

---
 .../internal/controller/grpc/grpc.go          |  2 +-
 .../internal/controller/grpc/middleware.go    | 16 +++++++++++++++-
 .../internal/controller/http/middleware.go    | 12 ++++++++----
 .../internal/usecase/db/hashslot_db.go        | 19 +++++++++++++++++++
 4 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/metaserver/internal/controller/grpc/grpc.go b/src/metaserver/internal/controller/grpc/grpc.go
index e666251..176a17c 100644
--- a/src/metaserver/internal/controller/grpc/grpc.go
+++ b/src/metaserver/internal/controller/grpc/grpc.go
@@ -24,8 +24,8 @@ func NewRpcServer(maxStreams uint32, rw *raftimpl.RaftWrapper, serv1 usecase.IMe
 		util.CommonStreamInterceptors(),
 		grpc.MaxConcurrentStreams(maxStreams),
 		grpc.ChainUnaryInterceptor(
+			CheckWritableUnary, // slots stay here until a write has ended
 			CheckKeySlot,
-			CheckWritableUnary,
 			CheckRaftEnabledUnary,
 			CheckRaftLeaderUnary,
 			CheckRaftNonLeaderUnary,
diff --git a/src/metaserver/internal/controller/grpc/middleware.go b/src/metaserver/internal/controller/grpc/middleware.go
index 9e38983..410e01f 100644
--- a/src/metaserver/internal/controller/grpc/middleware.go
+++ b/src/metaserver/internal/controller/grpc/middleware.go
@@ -40,6 +40,12 @@ var checkWritableMethods = set.OfString([]string{
 	"/proto.MetadataApi/RemoveVersion",
 })
 
+// they begin a migration, which waits for writes to end
+var migrationMethods = set.OfString([]string{
+	"/proto.HashSlot/StartMigration",
+	"/proto.HashSlot/PrepareMigration",
+})
+
 func CheckRaftEnabledUnary(ctx context.Context, req interface{}, info *grpc.UnaryServerInfo, handler grpc.UnaryHandler) (any, error) {
 	if checkRaftEnabledMethods.Contains(info.FullMethod) {
 		if !pool.RaftWrapper.Enabled {
@@ -66,9 +72,17 @@ func CheckWritableUnary(ctx context.Context, req interface{}, info *grpc.UnarySe
 		if info.FullMethod == "/proto.HashSlot/StreamingReceive" {
 			goto RETURNS
 		}
-		if !pool.HashSlot.IsNormal() {
+		if migrationMethods.Contains(info.FullMethod) {
+			if !pool.HashSlot.IsNormal() {
+				return nil, status.Error(codes.Unavailable, "server in migration")
+			}
+			goto RETURNS
+		}
+		done, ok := pool.HashSlot.StartWrite()
+		if !ok {
 			return nil, status.Error(codes.Unavailable, "server in migration")
 		}
+		defer done()
 	}
 RETURNS:
 	return handler(ctx, req)
diff --git a/src/metaserver/internal/controller/http/middleware.go b/src/metaserver/internal/controller/http/middleware.go
index 79625d9..fcaadc7 100644
--- a/src/metaserver/internal/controller/http/middleware.go
+++ b/src/metaserver/internal/controller/http/middleware.go
@@ -26,10 +26,14 @@ func CheckLeaderInRaftMode(c *gin.Context) {
 }
 
 func CheckInNormal(c *gin.Context) {
-	if isWriteMethod(c.Request.Method) && !pool.HashSlot.IsNormal() {
-		response.Exec(c).Fail(http.StatusConflict, "server in migration")
-		c.Abort()
-		return
+	if isWriteMethod(c.Request.Method) {
+		done, ok := pool.HashSlot.StartWrite()
+		if !ok {
+			response.Exec(c).Fail(http.StatusConflict, "server in migration")
+			c.Abort()
+			return
+		}
+		defer done()
 	}
 	c.Next()
 }
diff --git a/src/metaserver/internal/usecase/db/hashslot_db.go b/src/metaserver/internal/usecase/db/hashslot_db.go
index 6dc4ec0..7a91f0c 100644
--- a/src/metaserver/internal/usecase/db/hashslot_db.go
+++ b/src/metaserver/internal/usecase/db/hashslot_db.go
@@ -17,6 +17,7 @@ import (
 var (
 	hsLog         = logs.New("hash-slot-db")
 	MaxExpireUnix = int64(5 * time.Minute.Seconds())
+	maxWriteWait  = 10 * time.Second
 )
 
 const (
@@ -47,6 +48,7 @@ type HashSlotDB struct {
 	provider       *atomic.Pointer[hashslot.IEdgeProvider]
 	reloading      sync.Mutex
 	updatedAt      atomic.Int64
+	writing        atomic.Int64
 	migratingSlots []string
 	migratingHost  string
 	KeyPrefix      string
@@ -67,6 +69,16 @@ func (h *HashSlotDB) IsNormal() bool {
 	return h.status.Load() == StatusNormal
 }
 
+// StartWrite registers a write unless migrating. done must be called when it has ended.
+func (h *HashSlotDB) StartWrite() (done func(), ok bool) {
+	h.writing.Add(1)
+	if !h.IsNormal() {
+		h.writing.Add(-1)
+		return nil, false
+	}
+	return func() { h.writing.Add(-1) }, true
+}
+
 func (h *HashSlotDB) GetMigrateTo() (bool, string, []string) {
 	return h.status.Load() == StatusMigrateTo, h.migratingHost, h.migratingSlots
 }
@@ -133,6 +145,13 @@ func (h *HashSlotDB) ReadyMigrateTo(loc string, slots []string) error {
 		h.migratingHost = loc
 		h.migratingSlots = slots
 		hsLog.Debugf("switch normal to migrate-to")
+		// what is being written has to migrate too
+		for end := time.Now().Add(maxWriteWait); h.writing.Load() > 0; time.Sleep(time.Millisecond) {
+			if time.Now().After(end) {
+				_ = h.FinishMigrateTo()
+				return errors.New("writes under way do not end")
+			}
+		}
 		return nil
 	}
 	return errors.New("status is not in normal")
-- 
2.43.0


From bbbdc925c9c30a6d01b673cf5be5f26d2ac1fbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 05:15:18 +0000
Subject: [PATCH 75/80] fix: a request is handled under the name, bucket and
 version it is authorized for

---
 .../internal/controller/http/metadata_api.go  | 14 +++----
 src/apiserver/internal/entity/dto.go          | 39 ++++++++++---------
 2 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/apiserver/internal/controller/http/metadata_api.go b/src/apiserver/internal/controller/http/metadata_api.go
index 4d9eb64..e91ed89 100644
--- a/src/apiserver/internal/controller/http/metadata_api.go
+++ b/src/apiserver/internal/controller/http/metadata_api.go
@@ -27,9 +27,9 @@ func (mc *MetadataController) Register(route gin.IRouter) {
 
 func (mc *MetadataController) Get(c *gin.Context) {
 	body := struct {
-		Name    string `uri:"name"`
-		Bucket  string `header:"bucket" binding:"required"`
-		Version int32  `form:"version"`
+		Name    string `uri:"name" form:"-" header:"-"`
+		Bucket  string `header:"bucket" form:"-" uri:"-" binding:"required"`
+		Version int32  `form:"version" uri:"-" header:"-"`
 	}{}
 	if err := entity.Bind(c, &body, false); err != nil {
 		response.FailErr(err, c)
@@ -45,10 +45,10 @@ func (mc *MetadataController) Get(c *gin.Context) {
 
 func (mc *MetadataController) Versions(c *gin.Context) {
 	body := struct {
-		Page     int    `form:"page" binding:"required"`
-		PageSize int    `form:"page_size" binding:"required"`
-		Bucket   string `header:"bucket" binding:"required"`
-		Name     string `uri:"name" binding:"min=1"`
+		Page     int    `form:"page" uri:"-" header:"-" binding:"required"`
+		PageSize int    `form:"page_size" uri:"-" header:"-" binding:"required"`
+		Bucket   string `header:"bucket" form:"-" uri:"-" binding:"required"`
+		Name     string `uri:"name" form:"-" header:"-" binding:"min=1"`
 	}{}
 	if err := entity.Bind(c, &body, false); err != nil {
 		response.FailErr(err, c)
diff --git a/src/apiserver/internal/entity/dto.go b/src/apiserver/internal/entity/dto.go
index e44d419..db0c537 100644
--- a/src/apiserver/internal/entity/dto.go
+++ b/src/apiserver/internal/entity/dto.go
@@ -20,31 +20,34 @@ type PutResp struct {
 	Version int32  `json:"version"`
 }
 
+// Fields are bound by their own names to the sources they have no tag of, so that "-" is needed to let them
+// have a single source, the one that the request was authorized by.
+
 type PutReq struct {
-	Store    ObjectStrategy `form:"ss"`
-	Compress bool           `form:"compress"`
-	Name     string         `uri:"name" binding:"required"`
-	Bucket   string         `header:"bucket" binding:"required"`
-	Hash     string         `header:"digest" binding:"required"`
-	Ext      string
-	Locate   []string
-	Body     io.Reader
+	Store    ObjectStrategy `form:"ss" uri:"-" header:"-"`
+	Compress bool           `form:"compress" uri:"-" header:"-"`
+	Name     string         `uri:"name" form:"-" header:"-" binding:"required"`
+	Bucket   string         `header:"bucket" form:"-" uri:"-" binding:"required"`
+	Hash     string         `header:"digest" form:"-" uri:"-" binding:"required"`
+	Ext      string         `form:"-" uri:"-" header:"-"`
+	Locate   []string       `form:"-" uri:"-" header:"-"`
+	Body     io.Reader      `form:"-" uri:"-" header:"-"`
 }
 
 type GetReq struct {
-	Name    string `uri:"name" binding:"required"`
-	Bucket  string `header:"bucket" binding:"required"`
-	Version int32  `form:"version" binding:"min=0"`
-	Range   request.Range
+	Name    string        `uri:"name" form:"-" header:"-" binding:"required"`
+	Bucket  string        `header:"bucket" form:"-" uri:"-" binding:"required"`
+	Version int32         `form:"version" uri:"-" header:"-" binding:"min=0"`
+	Range   request.Range `form:"-" uri:"-" header:"-"`
 }
 
 type BigPostReq struct {
-	Compress bool   `form:"compress"`
-	Name     string `uri:"name" binding:"required"`
-	Bucket   string `header:"bucket" binding:"required"`
-	Hash     string `header:"digest" binding:"required"`
-	Size     int64  `header:"size" binding:"required,min=1"`
-	Ext      string
+	Compress bool   `form:"compress" uri:"-" header:"-"`
+	Name     string `uri:"name" form:"-" header:"-" binding:"required"`
+	Bucket   string `header:"bucket" form:"-" uri:"-" binding:"required"`
+	Hash     string `header:"digest" form:"-" uri:"-" binding:"required"`
+	Size     int64  `header:"size" form:"-" uri:"-" binding:"required,min=1"`
+	Ext      string `form:"-" uri:"-" header:"-"`
 }
 
 type BigPutReq struct {
-- 
2.43.0


From 9f9524d83774e1d9c4a4c82c8dca5b212fc2b28b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 05:57:43 +0000
Subject: [PATCH 76/80] fix: the configured nodes of a group follow who joins
 and leaves it

---
 src/metaserver/internal/controller/grpc/raft_cmd_server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/controller/grpc/raft_cmd_server.go b/src/metaserver/internal/controller/grpc/raft_cmd_server.go
index 82403ea..1873131 100644
--- a/src/metaserver/internal/controller/grpc/raft_cmd_server.go
+++ b/src/metaserver/internal/controller/grpc/raft_cmd_server.go
@@ -98,7 +98,7 @@ func (rcs *RaftCmdServerImpl) AddVoter(_ context.Context, req *pb.AddVoterReq) (
 		if nodes.Contains(node) {
 			continue
 		}
-		pool.Config.Cluster.Nodes = append(pool.Config.Cluster.Nodes)
+		pool.Config.Cluster.Nodes = append(pool.Config.Cluster.Nodes, node)
 	}
 	// persist config async
 	go func() {
@@ -149,7 +149,7 @@ func (rcs *RaftCmdServerImpl) RemoveFollower(_ context.Context, req *pb.RemoveFo
 			break
 		}
 	}
-	if idx > 0 {
+	if idx >= 0 {
 		pool.Config.Cluster.Nodes[0], pool.Config.Cluster.Nodes[idx] = pool.Config.Cluster.Nodes[idx], pool.Config.Cluster.Nodes[0]
 		slices.RemoveFirst(&pool.Config.Cluster.Nodes)
 		// persist config async
-- 
2.43.0


From f8f71c99e33ad2bd7bf320e7e2a86d488b6ab201 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 05:57:43 +0000
Subject: [PATCH 77/80] fix: a metadata server told to found a group without
 listed servers founds one of itself

---
 src/metaserver/internal/controller/grpc/raft_cmd_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metaserver/internal/controller/grpc/raft_cmd_server.go b/src/metaserver/internal/controller/grpc/raft_cmd_server.go
index 1873131..11528a5 100644
--- a/src/metaserver/internal/controller/grpc/raft_cmd_server.go
+++ b/src/metaserver/internal/controller/grpc/raft_cmd_server.go
@@ -47,7 +47,7 @@ func (rcs *RaftCmdServerImpl) Bootstrap(_ context.Context, req *pb.BootstrapReq)
 		}
 	} else {
 		if len(pool.Config.Cluster.Nodes) == 0 {
-			pool.Config.Cluster.Nodes = append(pool.Config.Cluster.Nodes, fmt.Sprint(pool.Config.Cluster, ",", util.ServerAddress(pool.Config.Port)))
+			pool.Config.Cluster.Nodes = append(pool.Config.Cluster.Nodes, fmt.Sprint(pool.Config.Cluster.ID, ",", util.ServerAddress(pool.Config.Port)))
 		}
 		raftCfg.Servers = make([]raft.Server, len(pool.Config.Cluster.Nodes))
 		for i, v := range pool.Config.Cluster.Nodes {
-- 
2.43.0


From 9a13960448232180abc04ea9cb13f5694ebe82cc Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 05:57:43 +0000
Subject: [PATCH 78/80] fix: a server that has just left a group joins it again

---
 .../controller/grpc/raft_cmd_server.go        | 33 +++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/metaserver/internal/controller/grpc/raft_cmd_server.go b/src/metaserver/internal/controller/grpc/raft_cmd_server.go
index 11528a5..eeec4d0 100644
--- a/src/metaserver/internal/controller/grpc/raft_cmd_server.go
+++ b/src/metaserver/internal/controller/grpc/raft_cmd_server.go
@@ -174,26 +174,25 @@ func (rcs *RaftCmdServerImpl) JoinLeader(ctx context.Context, req *pb.JoinLeader
 	}
 	// send rpc request by client
 	client := pb.NewRaftCmdClient(cc)
-	if rcs.rf.LeaderID() != req.MasterId {
-		if rcs.rf.LeaderID() != "" {
-			// demote voter
-			_, err = client.RemoveFollower(ctx, &pb.RemoveFollowerReq{
-				FollowerId: rcs.rf.ID,
-			})
-			if err != nil {
-				return nil, err
-			}
-		}
-		_, err = proto.ResolveResponse(client.AddVoter(ctx, &pb.AddVoterReq{
-			Voters: []*pb.Voter{{
-				Id:      rcs.rf.ID,
-				Address: rcs.rf.Address,
-			}},
-		}))
+	if id := rcs.rf.LeaderID(); id != req.MasterId && id != "" {
+		// demote voter
+		_, err = client.RemoveFollower(ctx, &pb.RemoveFollowerReq{
+			FollowerId: rcs.rf.ID,
+		})
 		if err != nil {
-			return &pb.Response{Message: err.Error()}, nil
+			return nil, err
 		}
 	}
+	// may know the leader though having left the cluster
+	_, err = proto.ResolveResponse(client.AddVoter(ctx, &pb.AddVoterReq{
+		Voters: []*pb.Voter{{
+			Id:      rcs.rf.ID,
+			Address: rcs.rf.Address,
+		}},
+	}))
+	if err != nil {
+		return &pb.Response{Message: err.Error()}, nil
+	}
 	// get leader config
 	msg, err := proto.ResolveResponse(client.Config(context.Background(), new(pb.EmptyReq)))
 	if err != nil {
-- 
2.43.0


From 3ff04f287b98a4ea84559fb6e776aaa63239895f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 06:02:12 +0000
Subject: [PATCH 79/80] fix: the location of another server's key lost the path
 of plain names

---
 src/metaserver/internal/usecase/logic/discover_logic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metaserver/internal/usecase/logic/discover_logic.go b/src/metaserver/internal/usecase/logic/discover_logic.go
index f61648d..a1a5c6c 100644
--- a/src/metaserver/internal/usecase/logic/discover_logic.go
+++ b/src/metaserver/internal/usecase/logic/discover_logic.go
@@ -24,6 +24,6 @@ func (d Discover) PeerLocation(id string, c *gin.Context) string {
 	if ip == "" {
 		ip = "unknown-id"
 	}
-	loc, _ := url.JoinPath(fmt.Sprint("http://", ip), c.Request.URL.RawPath)
+	loc, _ := url.JoinPath(fmt.Sprint("http://", ip), c.Request.URL.EscapedPath())
 	return loc
 }
-- 
2.43.0


From a534d829bdf572ba80f294d694ad418a9010fbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 06:03:10 +0000
Subject: [PATCH 80/80] fix: a relocation with an unreadable shard index moved
 shard 0

---
 src/metaserver/internal/controller/http/version_rest.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/metaserver/internal/controller/http/version_rest.go b/src/metaserver/internal/controller/http/version_rest.go
index 7a3fb68..6b56384 100644
--- a/src/metaserver/internal/controller/http/version_rest.go
+++ b/src/metaserver/internal/controller/http/version_rest.go
@@ -5,7 +5,6 @@ import (
 	"common/request"
 	"common/response"
 	"github.com/gin-gonic/gin"
-	"metaserver/internal/entity"
 	. "metaserver/internal/usecase"
 )
 
@@ -126,7 +125,7 @@ func (v *VersionController) UpdateLocates(c *gin.Context) {
 		Hash        string `json:"hash" binding:"required"`
 		LocateIndex int    `json:"locateIndex"`
 	}{}
-	if err := entity.BindAll(c, &body, entity.FullBindings...); err != nil {
+	if err := c.ShouldBindJSON(&body); err != nil {
 		response.BadRequestErr(err, c)
 		return
 	}
-- 
2.43.0

