S = "src/"
# ---------------------------------------------------------------- metadata server
p("M01", "Object metadata and versions behave like a sequential map of records",
  "For any sequence of creating, updating, removing and reading objects' metadata and versions, every answer (value, version number, not-found, already-exists, stale-update) is the one a plain in-memory model gives. Version numbers given out for an object strictly increase and are never reused while the object exists; updating a version never changes its content hash or number, and removing an object or version never affects any other object.",
  ["histories", "inputs"], "All histories of metadata/version operations over few and many names (names that are prefixes of one another, names with dots and digits), with more than ten and more than a hundred versions.",
  NOSRV + " A handful of fixed calls cannot cover histories.",
  [S+"metaserver/internal/usecase/logic/metadata_logic.go", S+"metaserver/internal/usecase/repo/metadata_repo.go", S+"metaserver/internal/usecase/service/metadata_service.go"],
  [("bolt transactions over nested version buckets", "metadata_logic.go AddMeta/AddVer/UpdateVer/RemoveVer/RemoveMeta")], ["metadata service API"])
p("M02", "Latest, first and listed versions follow numeric version order",
  "For any object, asking for the latest version returns the live version with the highest number, the reported first/last/total summary matches the live versions, and listing versions page by page yields every live version exactly once in increasing number order with no page longer than asked. This holds for any number of versions and after any removals.",
  ["histories", "inputs"], "All histories of adding/removing versions (0 to several hundred live versions, gaps at either end), all page sizes and pages.",
  NOSRV + " The order only matters from ten versions on.",
  [S+"metaserver/internal/usecase/repo/metadata_repo.go", S+"metaserver/internal/usecase/logic/metadata_logic.go", S+"metaserver/internal/usecase/service/metadata_service.go"],
  [("cursor over version keys", "metadata_repo.go GetLastVersionNumber/ListVersions, metadata_logic.go GetExtra")], ["metadata service API: get version 0, extra, list versions"])
p("M03", "Lookup by content hash returns exactly the live versions with that hash",
  "At any time, searching by content hash returns every live version (of any object) that has the hash, and nothing else. Recording a new location for a shard of a hash changes that one shard location in every such version and changes nothing else.",
  ["histories", "inputs"], "All histories of adding/removing versions and objects that share hashes across objects and versions, re-creating removed objects, and relocations by hash, index and address.",
  NOSRV,
  [S+"metaserver/internal/usecase/logic/hash_index_logic.go", S+"metaserver/internal/usecase/logic/metadata_logic.go", S+"metaserver/internal/usecase/service/metadata_service.go", S+"metaserver/internal/usecase/repo/metadata_repo.go"],
  [("secondary index maintained in the same transaction", "AddVer/RemoveVer/AddIndex/RemoveIndex"), ("relocation by index", "metadata_repo.go UpdateLocateByHash")], ["FindByHash, UpdateLocates, reads of the versions"])
p("M04", "Buckets behave like a sequential map, with prefix listing",
  "For any sequence of creating, updating, removing, reading and listing buckets, every answer is the one a plain sorted map gives: duplicates are refused, updates of missing buckets are refused, updates keep the creation time, and a listing returns the first N names with the prefix in name order together with the number of all names that have it.",
  ["histories", "inputs"], "All histories of bucket operations with names that are prefixes of one another, all prefixes and limits.",
  NOSRV,
  [S+"metaserver/internal/usecase/logic/bucket_logic.go", S+"metaserver/internal/usecase/repo/bucket_repo.go", S+"metaserver/internal/usecase/service/bucket_service.go"],
  [("bolt bucket with sorted keys", "bucket_logic.go")], ["bucket service API"])
p("M05", "Replicas applying the same log agree, however the log is batched",
  "Two metadata replicas that apply the same replicated commands in the same order end with the same stored state, whatever way the log is cut into batches, and the state equals that of a single server executing the same operations one by one. The answer given for each command (version number, error) is also independent of the batching.",
  ["histories", "configurations"], "All command logs (insert/update/remove/migrate of metadata, versions, buckets, including failing commands) and all ways of cutting them into batches.",
  NOSRV + " No test replays a log twice.",
  [S+"metaserver/internal/usecase/raftimpl/fsm_impl.go", S+"metaserver/internal/usecase/repo/batch_meta_repo.go", S+"metaserver/internal/usecase/raftimpl/raft_apply.go"],
  [("deterministic state machine apply", "fsm_impl.go Apply/ApplyBatch")], ["database contents of the replicas, apply responses"])
p("M06", "A snapshot restored on another replica reproduces the exact state",
  "Restoring a snapshot gives a replica exactly the state the snapshotted replica had when the snapshot was taken, whatever the restoring replica held before; reads after the restore show only that state, and further commands apply to it. A replica can be restored any number of times.",
  ["histories", "crash_points"], "All histories of commands before the snapshot, between snapshot and restore, before the restore on the target (including a larger or smaller database) and after it; repeated restores.",
  NOSRV,
  [S+"metaserver/internal/usecase/db/storage.go", S+"metaserver/internal/usecase/raftimpl/fsm_impl.go", S+"metaserver/internal/usecase/repo/metadata_repo.go"],
  [("bolt hot backup and file replacement", "db/storage.go Replace, metadata_repo.go Snapshot/Restore")], ["reads and full database contents after restore"])
p("M07", "Slot migration moves exactly the slot's data and loses nothing",
  "After a successful migration of hash slots between metadata servers, every object, version and bucket whose name falls in those slots is readable at the destination with the same content, version numbers and timestamps, is gone from the source, and everything else stays where it was; the slot ownership of both servers changes by exactly those slots. If the destination fails part-way nothing is lost: every record is still at the source or at the destination, and ownership is unchanged.",
  ["histories", "fault_sequences", "inputs"], "All contents of the two servers, all slot ranges owned by the source, repeated migrations to and fro, and a destination that fails after any number of items.",
  NOSRV,
  [S+"metaserver/internal/usecase/service/hashslot_service.go", S+"metaserver/internal/usecase/db/hashslot_db.go", S+"metaserver/internal/controller/grpc/hashslot_server.go"],
  [("streaming item transfer with acknowledgements", "hashslot_service.go AutoMigrate/ReceiveItem/FinishReceiveItem")], ["records readable on both servers, slot information in the coordination store"])
p("M08", "Reads are coherent with completed writes despite caching",
  "Once a write has returned and the server is quiet, every read (single, list, by hash) returns what the database holds: the cache never serves a removed record, an older value or a value of another record, and the answer does not depend on whether the cache is enabled.",
  ["histories", "schedules"], "All histories of metadata, version and bucket operations, on the direct and on the replicated write path.",
  NOSRV,
  [S+"metaserver/internal/usecase/repo/metadata_repo.go", S+"metaserver/internal/usecase/repo/bucket_repo.go", S+"metaserver/internal/usecase/repo/metadata_cache_repo.go", S+"metaserver/internal/usecase/raftimpl/fsm_impl.go"],
  [("cache-aside with background updates", "metadata_repo.go, bucket_repo.go")], ["service reads, database contents"])
p("M09", "Concurrent writers never lose or duplicate a version",
  "When several clients add, update and remove versions of the same and of different objects at the same time, each successful add gets a version number of its own, exactly the successfully added and not removed versions are present at the end, each with the content its own writer gave, and the summary and hash lookup agree with them.",
  ["schedules", "histories"], "All concurrent histories of adds/removes/updates by several clients, on the direct and on the replicated (single-node raft) write path.",
  NOSRV + " No test runs concurrent writers.",
  [S+"metaserver/internal/usecase/service/metadata_service.go", S+"metaserver/internal/usecase/raftimpl/raft_apply.go", S+"metaserver/internal/usecase/repo/metadata_repo.go"],
  [("single writer transactions", "db/storage.go Update/Batch")], ["service answers and final state"])
# ---------------------------------------------------------------- common
p("C01", "Hash slots form a partition: every key has exactly one owner",
  "For every accepted assignment of slot ranges to servers, each slot belongs to at most one server and every key is routed to the server whose range contains its slot; assignments with overlapping, reversed, empty or malformed ranges are refused. Merging and subtracting range lists equals set union and difference on slots, the result stays sorted and disjoint, and neither operation changes its operands.",
  ["inputs", "configurations"], "All range assignments over slots 0..16384 and all keys; all pairs of valid range lists.",
  "The unit tests try a few fixed ranges; the property quantifies over all range lists.",
  [S+"common/hashslot/hash_slot.go", S+"common/hashslot/edge.go"],
  [("sorted edge list with binary search", "hash_slot.go"), ("interval algebra", "edge.go CombineEdges/RemoveEdges")])
p("C02", "Encoded records survive a round trip and damaged input is refused",
  "Encoding any metadata, version, bucket or slot record, or any list of them, and decoding it gives back equal records in the same order. Decoding a truncated record, a list cut off inside a record, or a list whose length prefix points beyond the input returns an error and never crashes or reads outside the input.",
  ["inputs"], "All record values (empty, long, unicode, extreme numbers), all lists, all truncations and byte mutations of encodings.",
  "The unit test encodes one list of small fixed records and never damages it.",
  [S+"common/util/util.go", S+"common/proto/msg/metadata.go", S+"common/hashslot/slot_info.go"],
  [("length-prefixed msgpack framing", "util.go EncodeArrayMsgp/DecodeArrayMsgp")])
p("C03", "Sizes, byte ranges and patterns parse as documented",
  "A size text parses to number times unit and printing a size then parsing it gives the size back to the printed precision; a range header yields exactly the first/last numbers it spells; a wildcard pattern (* any run, ? any character) matches exactly the strings it describes. No input text crashes the parsers.",
  ["inputs"], "All sizes up to the largest unit, all unit spellings; all range headers; all pattern/text pairs over small alphabets.",
  "The unit tests parse a few literals.",
  [S+"common/datasize/datasize.go", S+"common/request/range.go", S+"common/wildcard/wildcard.go"],
  [("parsers", "datasize, request, util")])
p("C04", "Waiting on a group of tasks never misses an error or a task",
  "Waiting for a group of parallel tasks returns nil only if every task finished and none reported an error or panicked; if any task reported an error, one of the reported errors is returned. A limited group never runs more tasks at once than its limit, and all its tasks run.",
  ["schedules", "inputs"], "All numbers of tasks, which of them fail or panic, and in which order they finish relative to the waiter.",
  "No test drives the group with failing tasks and races.",
  [S+"common/util/done_group.go"],
  [("wait group plus error channel", "done_group.go")])
p("C05", "Block-aligned file reading and writing preserves content",
  "Reading or writing data through the block-aligned readers and writers keeps every byte in order, for every size, offset and split of the underlying reads: sizes are rounded up to whole 4 KiB blocks with zero padding only after the data, and limited reads return exactly the requested bytes.",
  ["inputs", "fault_sequences"], "All data sizes around multiples of the block size, all read-buffer sizes and short-read patterns, all limits and offsets.",
  "The unit tests read one small text.",
  [S+"common/system/disk"],
  [("padding readers", "aligned readers in common/system/disk")])
p("C06", "Performance records are aggregated and filtered exactly",
  "Everything put into the local performance store is returned, under its own kind and action, by every query that includes it and by none that excludes it; averages and sums equal those of the stored values, and clearing or sizing one kind/action affects and counts only that kind/action. A collector hands every record it was told to keep to its store exactly once.",
  ["histories", "inputs"], "All histories of put/get/average/sum/clear/size with names that are prefixes of one another, and put batches around the flush limits.",
  "The unit tests need an ETCD server or store one record.",
  [S+"common/performance/local_store.go", S+"common/performance/store.go", S+"common/performance/collector.go"],
  [("keyed bolt store", "local_store.go"), ("buffered collector", "collector.go")])
p("C07", "The service list follows registrations exactly",
  "Once quiet, the discovery view a server has of another service (addresses, id-to-address mapping, master/slave subsets, count) equals the set of currently registered instances of exactly that service, whatever order instances register, change role, and unregister in and whatever characters the group and instance ids use.",
  ["histories", "configurations"], "All histories of register/unregister/role changes, before and after the view is opened, for several services and groups including names that are prefixes of one another or contain separators.",
  "The unit test needs an ETCD server.",
  [S+"common/registry/etcd_discovery.go", S+"common/registry/etcd_registry.go", S+"common/registry/service_list.go", S+"common/cst"],
  [("initial listing plus watch", "etcd_discovery.go")])
p("C08", "A running server stays registered, and only while it runs",
  "Whatever calls of etcd fail for a while, at the start or later, and however often the lease is lost, once etcd works again a running server is registered under exactly one key, with its address, by a lease that lives and is being kept alive. A metadata server is registered in the role that its raft group gave it last, however quickly leadership changes and whatever happens to leases meanwhile. A server that unregistered and closed its lifecycle is not registered any more and does not register again.",
  ["histories", "fault_sequences", "schedules"], "All sequences of failing lease grants, keepalives, puts and deletes, lost leases, leadership changes (also before the first lease) and stops, with any interleaving of the callbacks.",
  "The unit test needs an ETCD server and checks no failure.",
  [S+"common/registry/etcd_lifecycle.go", S+"common/registry/etcd_registry.go", S+"metaserver/internal/usecase/logic/registry_logic.go", S+"metaserver/internal/usecase/raftimpl/raft_impl.go"],
  [("lease loop and subscribers", "etcd_lifecycle.go DeadLoop"), ("registration by role", "etcd_registry.go Register, registry_logic.go OnLeaderChanged")])
p("M11", "A metadata server's HTTP interface does what is asked",
  "For any sequence of requests over a metadata server's HTTP interface - creating, updating, reading, removing and listing objects, versions and buckets, lookups by hash, relocations of shards - statuses, version numbers, totals and contents are those of a plain in-memory model: what was stored is what is read, under the name in the path, with the times of the server's clock, an update keeps the time of creation, an object's bucket, a version's number, hash and unique id. Bodies that cannot be read and missing version numbers are refused and change nothing. While slots move away every write is refused with 409, and writes of keys whose slots another server owns are refused with 400 and the location of that server with the same path; neither changes anything.",
  ["histories", "inputs"], "All histories of requests with names of any characters, pages, sizes and prefixes, unreadable bodies, slots of others and slots on the move.",
  NOSRV + " No test sends a request to it.",
  [S+"metaserver/internal/controller/http/metadata_rest.go", S+"metaserver/internal/controller/http/version_rest.go", S+"metaserver/internal/controller/http/bucket_rest.go", S+"metaserver/internal/controller/http/middleware.go"],
  [("routes and statuses", "metadata_rest.go, version_rest.go, bucket_rest.go"), ("refusals", "middleware.go CheckInNormal, CheckKeySlot")], ["HTTP interface of the metadata server"])
p("M10", "A metadata server's configuration survives being saved and read again",
  "What a metadata server saves of its configuration - above all the slots it owns, down to none, and the members of its group - is exactly what its next start reads, after any sequence of changes and saves, also by several at once; when saving fails (full disk, crash), the configuration that was saved before is still there as a whole.",
  ["inputs", "histories", "crash_points"], "All contents of the configuration fields, sequences of changes and saves, and space left on the disk. Settings that are empty where a default exists come back as the default.",
  NOSRV,
  [S+"metaserver/config", S+"common/datasize", S+"common/registry/config.go"],
  [("encoding and replacing the file", "config.go Persist"), ("sizes in YAML", "datasize/yaml_env.go")], ["the configuration file", "configuration read by the next start"])
# ---------------------------------------------------------------- object server
p("O01", "A stored object reads back byte for byte, from any offset",
  "After an object is stored (plain or compressed) on a data server, every read returns exactly its bytes from the requested offset to the requested size, whatever was read or cached before, and a read that cannot deliver them fails visibly; an object that was never stored or was deleted is reported as absent, and storing one object never changes another. Requests for the same object at once act as if one came after the other.",
  ["histories", "inputs"], "All histories of put/get/ranged get/exists/delete over several names, sizes around multiples of 4 KiB, offsets aligned and not, compressed and not, cached and not.",
  NOSRV,
  [S+"objectserver/internal/usecase/service/objects_service.go", S+"objectserver/internal/controller/http"],
  [("aligned direct I/O with cache", "objects_service.go Put/Get/Delete")], ["HTTP object API of the data server"])
p("O02", "A committed upload is exactly the concatenation of its parts",
  "Committing a temporary upload makes the object equal to the concatenation of the appended parts in order, the size reported meanwhile equals the bytes appended, and nothing is visible under the object's name before the commit. An aborted upload leaves no object and no temporary data, a committed one leaves no temporary data, and uploads never mix.",
  ["histories", "inputs"], "All interleavings of several uploads (open/append/size/read/commit/abort), parts of any size, compressed and not.",
  NOSRV,
  [S+"objectserver/internal/usecase/service/temp_service.go", S+"objectserver/internal/controller/http", S+"objectserver/internal/usecase/service/objects_service.go"],
  [("temporary file then rename", "objects_service.go CommitFile, temp_service.go")], ["HTTP temp and object API, files on disk"])
p("O03", "An interrupted write never becomes a visible object",
  "If the body of a store request breaks off or fails at any byte, or a commit fails, the object is afterwards reported as absent (or still has its previous complete content): a partial object is never served, never reported as existing and does not disturb a later retry, which stores the full content.",
  ["fault_sequences", "crash_points"], "All break-off points of the body, for direct puts and appended parts, plain and compressed, followed by retries.",
  NOSRV,
  [S+"objectserver/internal/usecase/service/objects_service.go"],
  [("write then publish", "objects_service.go Put/WriteFile/CommitFile")], ["HTTP object API after the failed request"])
p("O04", "Where an object lies on disk is always found again",
  "The index from object names to disks returns, for every file recorded and not removed, a disk it was recorded on (the most recent when asked for the last), and nothing for files never recorded or fully removed; removing one location removes exactly that location.",
  ["histories", "inputs"], "All histories of record/remove/lookup over disk paths that are prefixes of one another or contain separator characters.",
  NOSRV,
  [S+"objectserver/internal/db/object_path_cache.go", S+"objectserver/internal/usecase/component/driver_manager.go"],
  [("ordered list of mount points per name", "object_path_cache.go")])
p("O05", "Used capacity equals what is stored",
  "After any history of stores, commits and deletes, the used capacity a data server reports equals the sum of the stored sizes of the objects it holds, is the same after a restart, and never goes negative; failed stores and commits do not count.",
  ["histories"], "All histories of put/commit/delete, plain and compressed, complete and broken, from several clients at once, with restarts.",
  NOSRV,
  [S+"objectserver/internal/db/object_capacity_db.go", S+"objectserver/internal/usecase/service/objects_service.go"],
  [("atomic counter updated with each store/delete", "object_capacity_db.go")])
p("O06", "Moving objects between data servers keeps every object intact",
  "When objects are migrated from one data server to another, each object afterwards exists completely and byte-identically on the receiver (and no longer on the sender) if the transfer of that object succeeded, otherwise still on the sender. The receiver never exposes a partially received object, never writes outside its own storage, and tells the metadata servers where a received object lies. As many objects are sent as it takes to reach the amount asked for, and no more.",
  ["fault_sequences", "inputs"], "All object sets and sizes, receivers failing at any file or chunk, and any received file name.",
  NOSRV,
  [S+"objectserver/internal/usecase/service/migration_service.go", S+"objectserver/internal/controller/grpc"],
  [("stream then remove", "migration_service.go SendingTo/Received/FinishObject")])
p("O07", "Disk selection and migration shares respect free space",
  "A write goes to a disk with the most free space of the configured (allowed, not excluded) ones, never to a full disk while another has space, whatever was chosen before. Rebalancing among servers computes shares that are never negative, take only from servers above the mean when one joins and give only to servers below it when one leaves, leave no server further from the mean than before (up to rounding), and cover all that a leaving server holds.",
  ["inputs", "configurations"], "All sets of disks with free/used sizes, all file sizes, all capacities of joining/leaving servers.",
  NOSRV,
  [S+"objectserver/internal/usecase/component", S+"objectserver/internal/usecase/service/migration_service.go"],
  [("balancers", "component/driver_balancer.go"), ("share computation", "migration_service.go")])
p("O08", "A search for a stored shard is answered by the server that has it",
  "A data server answers every search published in the registry for a shard it stores, once, under the key the search names, with the address it is registered under and the shard's number; it answers no search for something it does not store (never stored, deleted, only being uploaded, malformed). This holds for any number of searches at once, whatever was searched before, and again after its watch of the registry broke, after an answer could not be published, and after a restart.",
  ["histories", "inputs", "fault_sequences"], "All histories of stores, uploads, deletions, losses, restarts, address changes and searches (several at once, malformed ones), with broken watches and failing answers.",
  NOSRV,
  [S+"objectserver/internal/usecase/service/locate.go"],
  [("watch and answer", "locate.go StartLocate/handlerLocate")], ["apiserver's search for the shards of an object"])
# ---------------------------------------------------------------- api server
p("A01", "Erasure-coded objects read back exactly despite lost shards",
  "An object stored with any data/parity configuration reads back byte for byte, from any starting offset and in any read sizes, as long as at most the parity number of shards is missing or unreadable; each stored shard has the declared shard size. With more shards missing the read fails with an error and never returns wrong bytes.",
  ["inputs", "fault_sequences", "configurations"], "All sizes (0, 1, around block and shard boundaries), shard configurations, sets of lost shards, shards failing during the read, offsets and buffer sizes.",
  NOSRV + " The only Reed-Solomon test exercises the library, not these streams.",
  [S+"apiserver/internal/usecase/service/rs_encoder.go", S+"apiserver/internal/usecase/service/rs_decoder.go", S+"apiserver/internal/usecase/service/rs_get_stream.go", S+"apiserver/internal/usecase/service/rs_put_stream.go"],
  [("block-wise split, encode, reconstruct", "rs_encoder.go, rs_decoder.go")], ["put and get streams against data servers"])
p("A02", "Reading repairs lost shards exactly, or changes nothing",
  "When a complete read of an erasure-coded object finds missing shards, the shards written to the replacement servers equal the original shards byte for byte and the recorded locations become the surviving ones plus the replacements. When the read is incomplete, fails, or is abandoned, no shard is published and the recorded locations stay as they were.",
  ["fault_sequences", "inputs", "schedules"], "All sets of lost shards, sizes of several blocks, full, partial, ranged, abandoned and failing reads, synchronous and asynchronous rewriting.",
  NOSRV,
  [S+"apiserver/internal/usecase/service/rs_decoder.go", S+"apiserver/internal/usecase/service/rs_get_stream.go"],
  [("rewrite of reconstructed shards, commit on close", "rs_decoder.go getData, rs_get_stream.go Close")], ["data-server contents and recorded locations after the read"])
p("A03", "Replicated objects survive lost copies and are repaired exactly",
  "A replicated object reads back byte for byte, from any offset, while at least one copy is left. Copies are tried in their recorded order; a complete read from the beginning that finds more copies lost than tolerated before the first readable one restores each of those byte for byte and records locations that name every surviving and every restored copy at its own position; a partial or failed read restores nothing and records nothing.",
  ["fault_sequences", "inputs", "configurations"], "All copy counts, tolerated loss rates, sets of lost copies, sizes around block boundaries, full/ranged/abandoned reads.",
  NOSRV,
  [S+"apiserver/internal/usecase/service/copy_put_stream.go", S+"apiserver/internal/usecase/service/copy_get_stream.go", S+"apiserver/internal/usecase/service/copy_fix_stream.go"],
  [("first readable copy, repair on close", "copy_get_stream.go, copy_fix_stream.go")], ["put and get streams against data servers"])
p("A04", "Resumable uploads end with exactly the client's bytes",
  "A client that uploads in pieces, always continuing from the offset the server reports, ends with an object that reads back exactly as sent, with its bucket, name, compression and size, however the pieces are cut and wherever requests are interrupted. A piece at a wrong offset or beyond the declared size is refused without corrupting the upload, and nothing is readable before completion.",
  ["histories", "fault_sequences", "inputs"], "All sizes, cuts into pieces, interruption points, wrong offsets and oversize pieces, compressed and plain, all shard configurations.",
  NOSRV,
  [S+"apiserver/internal/controller/http/big_api.go", S+"apiserver/internal/usecase/service/rs_resumable_stream.go"],
  [("self-contained upload token, size asked from data server", "rs_resumable_stream.go")], ["HTTP /v1/big API, then object GET"])
p("A05", "Uploads apply the bucket's policy",
  "Every successful upload creates one new version carrying the uploaded size, strategy, shard counts and compression demanded by the bucket or the request, uploads to read-only buckets are refused and store nothing, and a bucket keeps at most its configured number of versions (one without versioning), always the newest ones.",
  ["histories", "configurations"], "All bucket configurations and histories of uploads, bucket changes and reads.",
  NOSRV,
  [S+"apiserver/internal/usecase/service/object_service.go", S+"apiserver/internal/entity/metadata.go", S+"apiserver/internal/controller/http/big_api.go"],
  [("policy applied on upload", "object_service.go StoreObject, entity MakeVersion")], ["object service API, metadata afterwards"])
p("A06", "Content that fails its digest or transfer is never published",
  "With checksums on, an upload whose bytes do not match the digest is refused, adds no version and leaves neither an object nor an unfinished upload on the data servers; an upload whose body breaks off or that any data server rejects likewise adds no version. An upload whose content is already stored is answered from the stored content only if all its shards are located, and contents to be stored differently (strategy, numbers of shards, compression) never share stored shards.",
  ["fault_sequences", "inputs"], "All bodies and digests, break-off points, failing data servers at each step, and located-shard answers (complete, partial, duplicate).",
  NOSRV,
  [S+"apiserver/internal/usecase/service/object_service.go", S+"apiserver/internal/usecase/service/put_stream.go"],
  [("hash while streaming, commit or roll back", "object_service.go streamToDataServer"), ("locating by hash", "object_service.go LocateObject")], ["object service API, data-server contents, metadata calls"])
p("A07", "A request passes only with a valid credential",
  "With authentication on, a request reaches its handler exactly if its path is white-listed or at least one enabled authenticator accepts it (matching user and password, or an approving callback that was sent the very bucket, file, method and version which the request is handled with, whatever other headers, parameters and bodies it has); otherwise it is refused with an error status and the handler never runs. With authentication off every request passes.",
  ["inputs", "configurations"], "All combinations of enabled authenticators, stored credentials, presented credentials, callback answers (approve, refuse, unreachable), hosts and white lists.",
  NOSRV,
  [S+"apiserver/internal/usecase/componet/auth"],
  [("middleware chain", "auth_middleware.go")], ["HTTP status and whether the handler ran"])
p("A08", "Shards spread evenly over the available servers",
  "Choosing servers for the shards of an object uses every available server before using any twice, so the numbers of shards per server differ by at most one, only available servers are chosen, and the least loaded ones are preferred when the strategy ranks servers.",
  ["inputs", "configurations"], "All server lists, shard counts, strategies and load reports including unreachable servers.",
  NOSRV,
  [S+"apiserver/internal/usecase/componet/selector", S+"apiserver/internal/usecase/logic/discovery_logic.go"],
  [("pop without replacement, recycle when empty", "selectors.go IPSelector")])
p("A09", "Metadata requests go to the owner of the key's slot",
  "For any published slot assignment, every metadata, version and bucket request for a key is sent to the server group that owns the key's slot (writes to its master), for any bucket and object name; keys of slots nobody owns are refused.",
  ["inputs", "configurations"], "All slot assignments over several servers and all names.",
  NOSRV,
  [S+"apiserver/internal/usecase/logic/hashslot_logic.go", S+"apiserver/internal/usecase/repo", S+"apiserver/internal/usecase/logic/discovery_logic.go"],
  [("slot lookup in the coordination store", "hashslot_logic.go KeySlotLocation")], ["requests received by metadata servers"])
p("A10", "End to end, what a client stores is what it reads back",
  "Through the public HTTP API, an object stored in a bucket reads back byte for byte under its name and version, latest by default and from any offset, while objects never stored are reported as not found; every combination of strategy, compression and size behaves the same, also after losing as many data servers' files as the strategy tolerates.",
  ["histories", "configurations", "fault_sequences"], "All histories of bucket and object requests over small and multi-block sizes, with loss of stored files between requests.",
  NOSRV,
  [S+"apiserver/internal/controller/http", S+"apiserver/internal/usecase/service", S+"objectserver/internal", S+"metaserver/internal"],
  [("whole request path", "api, meta and object servers")], ["public HTTP API"])
p("A11", "A server's configuration is shown in full but without credentials",
  "Asking an API, metadata or object server for its configuration (GET /config, GetConfig) shows every setting it runs with as it is, except that the credentials in it - etcd's user name and password, the administrator's user name and password, the e-mail password - appear nowhere in the answer; asking, however often and at once, never changes the running configuration.",
  ["inputs", "schedules"], "All values of all configuration fields, including texts that YAML has to quote; requests one after another and at once.",
  NOSRV,
  [S+"apiserver/internal/controller/http/internal_api.go", S+"metaserver/internal/controller/grpc/config_service.go", S+"objectserver/internal/controller/grpc/config_service.go"],
  [("masking", "internal_api.go Config, config_service.go GetConfig")], ["GET /config of the API server", "gRPC GetConfig of metadata and object servers"])
p("A12", "Acknowledged changes survive the loss of members of a metadata group",
  "Of a metadata group of several members, any may be killed and restarted, one at a time or so many that no majority is left: every upload that was acknowledged through the API stays readable under its version number, no number is ever given twice, requests succeed again once a majority runs, and all running members come to hold and serve the same versions, as followers too.",
  ["histories", "crash_points", "schedules"], "All histories of uploads, removals and reads with members of the group killed and restarted, among them requests while no majority runs.",
  NOSRV,
  [S+"metaserver/internal/usecase/raftimpl", S+"metaserver/internal/usecase/logic/hashslot_logic.go", S+"apiserver/internal/usecase/repo", S+"apiserver/internal/usecase/logic"],
  [("raft log and its application", "raftimpl"), ("who serves a key", "hashslot_logic.go IsKeyOnThisServer")], ["public HTTP API", "gRPC of every member"])
p("A13", "Moving slots in a cluster in use loses nothing",
  "While clients work, slots may be moved from any metadata server to any other one: objects, versions and bucket policies acknowledged before, during and after a migration stay as acknowledged wherever they live, no version number is given twice, a move of slots that are not the source's is refused, and the slots end up divided completely, each to one server, also if the target dies during the migration.",
  ["histories", "schedules", "crash_points"], "All sequences of migrations between three metadata servers with clients uploading and changing buckets during them, and the target killed at any moment.",
  NOSRV,
  [S+"metaserver/internal/usecase/service/hashslot_service.go", S+"metaserver/internal/usecase/db/hashslot_db.go", S+"metaserver/internal/controller/grpc/middleware.go", S+"apiserver/internal/usecase/logic/hashslot_logic.go"],
  [("migration", "hashslot_service.go AutoMigrate, ReceiveItem, FinishReceiveItem"), ("writes under way", "hashslot_db.go StartWrite")], ["public HTTP API", "gRPC StartMigration, GetCurrentSlots"])
p("A14", "Servers join and leave a metadata group without loss",
  "While a raft group of metadata servers is in use, servers that belong to no group can join it through its leader and members, including the leader, can leave it, also to come back at once, and members can be killed and started again. A join or leave answered with success has happened: all members name exactly the members as their peers, and the leader that took it and the server that joined list the new member among the nodes they have configured, while a leader that removed a member does not list it any more. A group can be founded from servers that belong to none, of the listed ones or of the server alone. Uploads keep succeeding, what was acknowledged stays as it was, no version number is given twice, and in the end all members hold the same versions.",
  ["histories", "schedules", "crash_points"], "All sequences of joins, leaves, kills and restarts among four metadata servers with uploads between them.",
  NOSRV,
  [S+"metaserver/internal/controller/grpc/raft_cmd_server.go", S+"metaserver/internal/usecase/raftimpl/raft_impl.go", S+"metaserver/internal/usecase/logic/raft_cluster_logic.go"],
  [("membership commands", "raft_cmd_server.go Bootstrap, AddVoter, JoinLeader, LeaveCluster, RemoveFollower"), ("configured nodes", "raft_cluster_logic.go UpdateConfiguration")], ["public HTTP API", "gRPC RaftCmd"])
# ---------------------------------------------------------------- admin server
p("D01", "Cluster-wide listings page through exactly the union of all servers",
  "Listing objects or buckets across all metadata servers, page by page, yields every matching entry of every master exactly once in one global order, with the total equal to the number of matching entries; a failing server makes the listing fail rather than shrink.",
  ["inputs", "configurations"], "All distributions of entries over servers, page sizes, prefixes, and failing servers.",
  NOSRV,
  [S+"adminserver/internal/usecase/logic/metadata_logic.go", S+"adminserver/internal/usecase/webapi", S+"metaserver/internal/usecase/repo/metadata_repo.go"],
  [("merge and cut", "metadata_logic.go MetadataPaging/BucketPaging")])
p("D02", "The admin server relays requests and answers unchanged",
  "An upload, download, version listing or bucket change made through the admin server reaches an API server as a request about exactly the named object or bucket with the same content and credential, whatever characters the names hold; the client gets that server's answer: its content complete or visibly broken off, its refusals with their status, never a success that did not happen.",
  ["inputs", "fault_sequences"], "All names (object names without '/'), buckets, contents, and answers of the API server including ones that break off.",
  NOSRV,
  [S+"adminserver/internal/controller/http/object.go", S+"adminserver/internal/controller/http/metadata.go", S+"adminserver/internal/usecase/webapi/api_server.go", S+"adminserver/internal/usecase/logic/object_logic.go"],
  [("requests to the API server", "webapi/api_server.go")], ["public HTTP API of the admin server", "requests received by API servers"])
p("D03", "Administrative requests pass only with a credential the API servers accept",
  "A request about metadata or objects made to the admin server has an effect or gives an answer only if the token of the request, or of its session when it carries none, is accepted by the API servers at that time; otherwise it is refused and reaches no server. A session keeps the last token given until logout, after which it holds none.",
  ["histories"], "All histories of requests with and without tokens, logins, logouts and forged cookies of several browsers, while tokens are granted and revoked and API servers come and go.",
  NOSRV + " The monitoring routes under /api/server are public.",
  [S+"adminserver/internal/controller/http/auth.go"],
  [("token in the session", "auth.go SaveToken/RequireToken")], ["public HTTP API of the admin server"])
p("D04", "The monitor's timelines are what servers reported",
  "For every server, the timeline of the monitor holds exactly its last 59 reports (from the one that was current when the monitor started) in the order they were made, at any time a contiguous run of them, for any interleaving of reports and readers; an unreadable report or a server that ends changes nothing else, and after an outage of the coordination store the timelines go on in order.",
  ["schedules", "histories"], "All interleavings of reports of several servers with the monitor's start, reads and outages.",
  NOSRV,
  [S+"adminserver/internal/usecase/db/server_stat_db.go"],
  [("reading, watching and the bounded list", "server_stat_db.go")], ["timelines handed to the web console"])
p("D05", "Commands given in the admin panel reach the server they name, and its views of servers are right",
  "A command (migrate slots, join or leave a raft group, join or leave the data servers' cluster) reaches exactly the server with the named id and kind, at the address it is registered with now, once and with what was asked; success is reported only if that server obeyed, its refusal or failure as an error, and an unknown server as a bad request that reaches nobody. The views of configuration, group members, slots and server states show what the servers answered, registered and published: address, master role and system information under the right id.",
  ["histories", "fault_sequences"], "All histories of servers that come, go, move and change their role, the same ids in several kinds, with commands and views while servers obey, refuse or fail.",
  NOSRV,
  [S+"adminserver/internal/usecase/logic", S+"adminserver/internal/controller/http"],
  [("finding the server", "metadata_logic.go, object_logic.go, config_logic.go"), ("connections", "conn.go getConn"), ("states", "server_monitor.go ServerStat")], ["gRPC calls servers receive", "public HTTP API of the admin server"])
