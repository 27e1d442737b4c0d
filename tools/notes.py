NA = {}
notes = {
 "C01": "random assignments against a slot array; range lists against sets",
 "C02": "round trip, truncation and damage of generated records and lists",
 "C03": "generated texts against big-integer, decimal and regular-expression oracles",
 "C04": "generated task groups, repeated races, against what each task did",
 "C05": "generated sizes and splits, round trip through readers, writers and real files",
 "C06": "stateful histories against a list model",
 "C07": "stateful histories with an in-memory etcd, including changes between fetch and watch, against the registered set",
 "C08": "generated lives of servers with failing etcd calls, lost leases and leadership changes, run concurrently, against the state every life has to end in; also with the race detector",
 "M01": "stateful histories through repositories, services and gRPC against a plain map model",
 "M02": "stateful histories with many versions and removals against numeric order, all page sizes",
 "M03": "stateful histories with shared hashes against a filter over the model",
 "M04": "stateful histories of buckets against a sorted map",
 "M05": "generated command logs: random batching and restarts against one-by-one execution; a real three-node raft cluster on loopback with restarts",
 "M06": "generated histories around snapshot and restore, with damaged snapshots, failing sinks and restarts, against the model at the snapshot",
 "M07": "generated contents and slot assignments migrated to and fro between two real servers (two processes, gRPC) with injected faults, against an ownership and content model",
 "M08": "stateful histories differential cached against uncached, with concurrent readers, batches, restores and the race detector",
 "M09": "generated concurrent programs, their histories decided for linearizability by porcupine, plus the final state, with the race detector and through raft",
 "O04": "generated histories of recording and removing disk paths, and of files appearing and moving between disks, against a model",
 "O01": "stateful histories over HTTP against a model, with damaged files; concurrent clients decided for linearizability by porcupine",
 "O02": "stateful histories of several uploads at once against a model of parts, with the files left on disk",
 "O03": "stateful histories with bodies broken off at any byte, full disks (file size limit) and process ends in the middle, against a model",
 "O05": "stateful histories with faults and restarts, and concurrent clients with the race detector: reported capacity against the files on disk",
 "O06": "generated transfers with faults: a real receiver against generated streams and names, a real sender against failing receivers, three real servers in processes with cut connections",
 "O07": "generated disks and capacities against the stated order; choices and disk updates at once with the race detector",
 "O08": "stateful histories of objects, searches and broken watches over an in-memory registry, answers compared with a model of what is stored",
 "A01": "generated layouts, sizes, damaged shards and read patterns through the object service over in-memory data servers, against the stored bytes",
 "A02": "generated losses, incomplete reads and failing replacements; every stored shard and recorded location compared with the originals",
 "A05": "stateful generated histories of bucket changes, small and resumable uploads and reads against a model of the buckets' policies",
 "A06": "generated wrong digests, broken bodies, failing data servers at every step and incomplete or malformed answers to locating; versions and stored files compared with before",
 "A07": "generated configurations, credentials, callback answers and requests over HTTP against a decision model of who is let through",
 "A08": "generated server lists, loads and shard counts against the balance and ranking rules, also concurrently under the race detector",
 "A09": "generated slot assignments, followers, names and refusals over recording metadata servers (gRPC and HTTP); receiver, request and answer compared with an independent slot computation; first connections concurrently under the race detector",
 "A04": "stateful generated uploads over HTTP (pieces of any cut, broken-off requests, wrong offsets, oversize pieces, failing data and metadata servers), object read back and compared, also after losing shards",
 "A03": "generated losses of copies, incomplete reads and failing repairs; stored copies and recorded locations compared with the originals",
 "A10": "stateful generated histories over HTTP against a cluster of the real server programs (in-memory etcd): bytes, versions, listings and statuses compared with a model; crashes, wipes and lost files within the tolerance, restarts of all servers, names of any characters, concurrent clients",
 "A12": "stateful generated histories over HTTP against a raft group of real metadata servers with members killed and restarted, also without a majority; contents and numbers against a model, the members' own version lists against each other",
 "A13": "stateful generated histories with migrations of slots between real metadata servers while generated clients upload and change buckets and targets die; acknowledged changes and the division of the slots against a model",
 "A14": "stateful generated histories of servers joining, leaving and dying in a group of real metadata servers under uploads; peers, configured nodes, contents and version lists against a model",
 "M11": "stateful generated histories of HTTP requests, also unreadable ones, for other servers' keys and while slots move, against an in-memory model",
 "D01": "generated distributions of records over metadata servers, pages and failing servers against the sorted union; a real metadata server's listings against a model",
 "D02": "generated names, buckets, contents and failing or broken-off answers over HTTP; the requests a recording API server gets and the answers clients get compared with what was sent",
 "D03": "stateful histories of browsers with cookies against a model of sessions and valid tokens",
 "D04": "generated reports of several servers with an in-memory etcd, also while being read under the race detector and across outages, against the sequence of reports",
 "M10": "generated configurations changed and saved again and again, at once and on full disks (file size limit), compared with what the next start reads",
 "A11": "generated values in every configuration field (by reflection) of the three servers; the shown document compared field by field, every credential searched in it",
 "D05": "stateful histories of servers registering, moving and failing, with commands and views over HTTP against recording gRPC stand-ins; calls received and answers compared with a model, also at once under the race detector",
}
